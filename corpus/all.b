/* every construct of the language */
zero;
one 1;
many 1, -2, 'ab', "str", 017;
neg -5;
vec[3] 1, 2, 3;
vnone[] "a", "b*n";
vbig[10];
vsize[2] 1, 2, 3, 4;
_under 7;
f(a, b) {
	auto x, y[5], z;
	extrn vec, one;
	x = a + b * 2 - -1;
	y[0] = x++ + ++z;
	y[1] =+ x-- - --z;
	*y =- 3;
	y[2] =<< 2;
	y[2] =>> 1;
	y[3] =< 4;
	y[3] =<= 5;
	y[3] => 6;
	y[3] =>= 7;
	y[3] === 8;
	y[3] =!= 9;
	y[4] =* 2;
	y[4] =/ 3;
	y[4] =% 5;
	y[4] =& 6;
	y[4] =| 7;
	if (a < b) x = 1; else x = 2;
	if (a <= b | a >= b & a != b) { x = 3; } else if (a == b) x = 4; else { x = 5; }
	while (x > 0) { x--; if (!x) goto done; }
	switch (a) { case 1: x = 1; case 'b': x = 2; case 010: { x = 3; } lab: x = 4; }
	switch b case 2: return (b);
done:
	;
	x = a ? b : z;
	x = a == 1 ? b : z ? 2 : 3;
	vec[1] = &x;
	*&x = *vec[1];
	return ((x >> 1) << 2 % 3 / 4);
}
g() return (f(f(1, 2), f(3, 4)));
h() ;
k(p, q, r, s, t, u) { return; }
main() {
	extrn printf, putchar;
	auto s;
	s = "text with /** no comment **/ and 'quotes' *"escaped*"";
	printf("%d %s*n", g(), s);
	putchar('*'');
	(k)(1, 2, 3, 4, 5, 6);
	s = k;
	s(1);
	{ }
	{ ; ; { s = 'abcdefgh'; } }
	return (0);
}
