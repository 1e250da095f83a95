// A generator that returns scripted bytes and records what was taken; when the
// script is used up it fails once (and would serve any later request, so that
// ignoring the failure gives a result).  Script: hex, or K:hex with the kind
// of failure K: r std::runtime_error, l std::logic_error, i an int, b
// std::bad_alloc, p the request half filled, then std::runtime_error.
#pragma once
#include <gmlib/rng/rng.h>

#include <new>

#include "drv.h"

class ScriptRng : public rng::Rng
{
    drv::Bytes  s_;
    std::size_t at_   = 0;
    char        kind_ = 'r';

public:
    bool starved = false;
    explicit ScriptRng(drv::Bytes s) : s_(std::move(s)) {}
    explicit ScriptRng(const std::string& a) : s_(drv::hex(a.size() > 1 && a[1] == ':' ? a.substr(2) : a)), kind_(a.size() > 1 && a[1] == ':' ? a[0] : 'r') {}
    const char* name() const override { return "script"; }
    void        gen(void* out, std::size_t len) override
    {
        if (starved)
        {
            for (std::size_t i = 0; i < len; i++) ((std::uint8_t*)out)[i] = (std::uint8_t)(0x21 + i);
            return;
        }
        if (s_.size() - at_ < len)
        {
            starved = true;
            if (kind_ == 'l') throw std::logic_error("script used up");
            if (kind_ == 'i') throw 7;
            if (kind_ == 'b') throw std::bad_alloc();
            if (kind_ == 'p') std::memset(out, 0x31, len / 2);
            throw std::runtime_error("script used up");
        }
        if (len) std::memcpy(out, s_.data() + at_, len);
        at_ += len;
    }
    drv::Bytes taken() const { return drv::Bytes(s_.begin(), s_.begin() + (std::ptrdiff_t)at_); }
};
