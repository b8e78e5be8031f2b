/* The following program will print 'Hello World' to stdout. */

main() {
    printf("Hello, World!*n");
}
