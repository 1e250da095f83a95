// Hash functions that lead signatures and encryption into their rare cases
// (HashOf in SM2.tla): the last N bytes of the data, the N bytes
// after the first; and a function that is
// zero in chosen cases.
#pragma once
#include <gmlib/hash_lib/hash.h>

#include <algorithm>
#include <cstring>

// only the first and the last bytes of the data are kept
template <std::size_t N, bool GATE, bool HEAD = false>
class TestHash : public hash_lib::Hash<16>
{
    static constexpr std::size_t KEEP = 80;
    std::uint8_t                 head_[KEEP], tail_[KEEP];
    std::size_t                  nh_ = 0, nt_ = 0; // bytes in head_ and tail_

    void add(const std::uint8_t* p, std::size_t n)
    {
        std::size_t a = std::min(n, KEEP - nh_);
        std::memcpy(head_ + nh_, p, a);
        nh_ += a;
        if (n > KEEP) p += n - KEEP, n = KEEP;
        if (nt_ + n > KEEP)
        {
            std::size_t drop = nt_ + n - KEEP;
            std::memmove(tail_, tail_ + drop, nt_ - drop);
            nt_ -= drop;
        }
        std::memcpy(tail_ + nt_, p, n);
        nt_ += n;
    }

public:
    static constexpr std::size_t BLOCK_SIZE = 16, DIGEST_SIZE = N;
    void reset() noexcept
    {
        hash_lib::Hash<16>::reset();
        nh_ = nt_ = 0;
    }

private:
    void update_blocks(const std::uint8_t* in, std::size_t k) override { add(in, 16 * k); }
    void final_block(std::uint8_t* out, const std::uint8_t* in, std::size_t n) override
    {
        if (n) add(in, n);
        std::memset(out, 0, N);
        if (HEAD)
        {
            if (nh_ > 1) std::memcpy(out, head_ + 1, std::min(N, nh_ - 1));
        }
        else
        {
            std::size_t take = std::min(N, nt_);
            std::memcpy(out + N - take, tail_ + nt_ - take, take);
        }
        if (GATE)
        {
            bool z = false;
            if (nh_)
            {
                int c = head_[0] % 4, l = tail_[nt_ - 1];
                z = c == 0 || (c == 1 && l == 1) || (c == 2 && l != 1);
            }
            if (z)
                std::memset(out, 0, N);
            else
                out[0] = 1;
        }
    }
};
using Head20 = TestHash<20, false, true>;
using Head32 = TestHash<32, false, true>;
using Head64 = TestHash<64, false, true>;
using Tail20 = TestHash<20, false>;
using Tail32 = TestHash<32, false>;
using Tail64 = TestHash<64, false>;
using Gate32 = TestHash<32, true>;
