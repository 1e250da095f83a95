// Stand-in for the random-number instructions: the steps follow a script.
#pragma once
extern "C++" {
int gm_step16(unsigned short*);
int gm_step32(unsigned int*);
int gm_step64(unsigned long long*);
inline int _rdrand16_step(unsigned short* p) { return gm_step16(p); }
inline int _rdrand32_step(unsigned int* p) { return gm_step32(p); }
inline int _rdrand64_step(unsigned long long* p) { return gm_step64(p); }
inline int _rdseed16_step(unsigned short* p) { return gm_step16(p); }
inline int _rdseed32_step(unsigned int* p) { return gm_step32(p); }
inline int _rdseed64_step(unsigned long long* p) { return gm_step64(p); }
inline void _mm_pause() {}
}
