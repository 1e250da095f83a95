// Runs f with the standard output going to a temporary file; returns it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

#include "drv.h"
namespace drv {
template <class F>
Bytes captured(F f)
{
    std::fflush(stdout);
    std::FILE* t    = std::tmpfile();
    int        save = dup(1);
    if (!t || save < 0) _exit(9);
    dup2(fileno(t), 1);
    f();
    std::fflush(stdout);
    dup2(save, 1);
    close(save);
    Bytes r;
    std::rewind(t);
    int ch;
    while ((ch = std::fgetc(t)) != EOF) r.push_back((std::uint8_t)ch);
    std::fclose(t);
    return r;
}
} // namespace drv
