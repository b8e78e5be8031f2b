/*
 * Checks modules of LLVM intermediate code: parse, verify, and for each level
 * asked for optimize and translate to an object file in memory.
 * stdin: u32 levels (bit n: -On), u32 length, text; stdout: status byte, u32 length, message.
 */
#include <llvm-c/Analysis.h>
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static LLVMTargetMachineRef tm[4];
static char *triple;

static void handler(LLVMDiagnosticInfoRef d, void *p)
{
    if (LLVMGetDiagInfoSeverity(d) == LLVMDSError)
        *(char **)p = LLVMGetDiagInfoDescription(d);
}

static const char *check(const char *text, uint32_t n, int level, int codegen, char *st)
{
    char *msg = 0, *diag = 0;
    LLVMContextRef c = LLVMContextCreate();
    LLVMContextSetDiagnosticHandler(c, handler, &diag);
    LLVMMemoryBufferRef b = LLVMCreateMemoryBufferWithMemoryRangeCopy(text, n, "m");
    LLVMModuleRef m;
    *st = 'P';
    if (LLVMParseIRInContext(c, b, &m, &msg)) {
        msg = strdup(msg ? msg : "parse error");
        LLVMContextDispose(c);
        return msg;
    }
    *st = 'V';
    if (LLVMVerifyModule(m, LLVMReturnStatusAction, &msg))
        goto out;
    if (codegen) {
        *st = 'O';
        LLVMSetTarget(m, triple);
        LLVMTargetDataRef td = LLVMCreateTargetDataLayout(tm[level]);
        LLVMSetModuleDataLayout(m, td);
        LLVMDisposeTargetData(td);
        if (level > 0) {
            char p[16];
            sprintf(p, "default<O%d>", level);
            LLVMPassBuilderOptionsRef o = LLVMCreatePassBuilderOptions();
            LLVMErrorRef e = LLVMRunPasses(m, p, tm[level], o);
            LLVMDisposePassBuilderOptions(o);
            if (e) {
                msg = LLVMGetErrorMessage(e);
                goto out;
            }
        }
        *st = 'C';
        LLVMMemoryBufferRef obj;
        if (LLVMTargetMachineEmitToMemoryBuffer(tm[level], m, LLVMObjectFile, &msg, &obj))
            goto out;
        LLVMDisposeMemoryBuffer(obj);
        if (diag) {
            msg = diag;
            goto out;
        }
    }
    *st = 'A';
    msg = 0;
out:
    if (msg)
        msg = strdup(msg);
    else
        msg = strdup(*st == 'A' ? "" : "error");
    LLVMDisposeModule(m);
    LLVMContextDispose(c);
    return msg;
}

int main(void)
{
    LLVMInitializeX86TargetInfo();
    LLVMInitializeX86Target();
    LLVMInitializeX86TargetMC();
    LLVMInitializeX86AsmPrinter();
    triple = LLVMGetDefaultTargetTriple();
    LLVMTargetRef t;
    char *e;
    if (LLVMGetTargetFromTriple(triple, &t, &e))
        return 9;
    for (int i = 0; i < 4; i++)
        tm[i] = LLVMCreateTargetMachine(t, triple, "x86-64", "", i, LLVMRelocPIC, LLVMCodeModelDefault);
    char *buf = 0;
    uint32_t cap = 0, h[2];
    while (fread(h, 4, 2, stdin) == 2) {
        if (h[1] >= cap)
            buf = realloc(buf, cap = h[1] * 2 + 1000);
        if (fread(buf, 1, h[1], stdin) != h[1])
            return 8;
        char st = 'A';
        const char *msg = "";
        if (!h[0])
            msg = check(buf, h[1], 0, 0, &st);
        for (int l = 0; l < 4 && st == 'A'; l++)
            if (h[0] >> l & 1)
                msg = check(buf, h[1], l, 1, &st);
        uint32_t n = strlen(msg);
        fwrite(&st, 1, 1, stdout);
        fwrite(&n, 4, 1, stdout);
        fwrite(msg, 1, n, stdout);
        if (*msg)
            free((void *)msg);
        fflush(stdout);
    }
    return 0;
}
