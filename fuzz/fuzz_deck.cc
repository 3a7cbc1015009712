// Coverage-guided fuzzing of the deck reader.  Oracle: the reader returns with a
// positive time step, or calls exit with a non-zero status after writing to
// standard error; the sanitizers and the time limit of libFuzzer do the rest.
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include "FileParser.hh"

static jmp_buf back;
static bool inside = false;
static int status;
extern "C" void _exit(int) __attribute__((noreturn));
extern "C" void exit(int code) noexcept
{
    if (inside) { status = code; longjmp(back, 1); }
    fflush(nullptr);
    _exit(code);
}
static std::string name()
{
    static std::string n = std::string(getenv("FUZZ_DIR") ? getenv("FUZZ_DIR") : "/tmp") + "/deck-" + std::to_string(getpid()) + ".ini";
    return n;
}
[[noreturn]] static void fail(const char* what)
{
    inside = false;
    fprintf(stderr, "ORACLE: %s\n", what);
    abort();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    FILE* f = fopen(name().c_str(), "wb");
    if (size) fwrite(data, 1, size, f);
    fclose(f);
    static std::stringstream err;
    err.str("");
    std::streambuf* was = std::cerr.rdbuf(err.rdbuf());
    static FileParser* p;       // a refused one is lost
    status = -1;
    inside = true;
    if (setjmp(back) == 0)
    {
        p = new FileParser(name());
        inside = false;
    }
    inside = false;
    std::cerr.rdbuf(was);
    if (status == -1)
    {
        if (!(p->GetGeneral().timeStep > 0)) fail("accepted a time step that is not positive");
        if (p->GetGeneral().units != "SI" && p->GetGeneral().units != "si") fail("accepted unknown units");
        for (auto& x : p->GetParticle()) if (x.Name.empty()) fail("a source without a name");
        delete p;
    }
    else if (status == 0) fail("refused with status 0");
    else if (err.str().empty()) fail("refused without a word on standard error");
    return 0;
}
