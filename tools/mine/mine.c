// mine <80-byte header hex> <word7 hex> <max256 hex BE> : search (merkle counter, nonce) until the
// double SHA-256 has last word == word7 (as the big-endian word of hash bytes 28..31) and, read as a
// little-endian integer, is <= max (all ff: no bound). Prints header and hash (LE integer, hex).
#include <immintrin.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const uint32_t K[64] __attribute__((aligned(16))) = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static const uint32_t IV[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static inline void comp(uint32_t st[8], const uint32_t w[16]) {
  __m128i t=_mm_loadu_si128((__m128i*)st), s1=_mm_loadu_si128((__m128i*)(st+4));
  t=_mm_shuffle_epi32(t,0xB1); s1=_mm_shuffle_epi32(s1,0x1B);
  __m128i s0=_mm_alignr_epi8(t,s1,8); s1=_mm_blend_epi16(s1,t,0xF0);
  __m128i a=s0,b=s1,m[4];
  for(int i=0;i<4;i++) m[i]=_mm_loadu_si128((__m128i*)(w+4*i));
  for(int i=0;i<16;i++){
    __m128i x=_mm_add_epi32(m[i&3],_mm_load_si128((__m128i*)(K+4*i)));
    s1=_mm_sha256rnds2_epu32(s1,s0,x);
    s0=_mm_sha256rnds2_epu32(s0,s1,_mm_shuffle_epi32(x,0x0E));
    if(i<12){
      __m128i y=_mm_sha256msg1_epu32(m[i&3],m[(i+1)&3]);
      y=_mm_add_epi32(y,_mm_alignr_epi8(m[(i+3)&3],m[(i+2)&3],4));
      m[i&3]=_mm_sha256msg2_epu32(y,m[(i+3)&3]);
    }
  }
  s0=_mm_add_epi32(s0,a); s1=_mm_add_epi32(s1,b);
  t=_mm_shuffle_epi32(s0,0x1B); s1=_mm_shuffle_epi32(s1,0xB1);
  s0=_mm_blend_epi16(t,s1,0xF0); s1=_mm_alignr_epi8(s1,t,8);
  _mm_storeu_si128((__m128i*)st,s0); _mm_storeu_si128((__m128i*)(st+4),s1);
}
static uint32_t be(const uint8_t*p){return p[0]<<24|p[1]<<16|p[2]<<8|p[3];}
static uint8_t H0[80]; static uint32_t W7; static uint8_t MX[32]; static volatile int done; static uint64_t next; 
static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
static void dsha(const uint8_t h[80], uint32_t mid[8], uint32_t o[8], uint32_t nonce_be){
  uint32_t w[16]={be(h+64),be(h+68),be(h+72),nonce_be,0x80000000,0,0,0,0,0,0,0,0,0,0,640},s[8];
  memcpy(s,mid,32); comp(s,w);
  uint32_t v[16]; memcpy(v,s,32); v[8]=0x80000000; for(int i=9;i<15;i++)v[i]=0; v[15]=256;
  memcpy(o,IV,32); comp(o,v);
}
static void* run(void*_){
  while(!done){
    uint64_t c=__sync_fetch_and_add(&next,1);
    uint8_t h[80]; memcpy(h,H0,80); for(int i=0;i<8;i++) h[40+i]^=c>>(8*i); // merkle bytes
    uint32_t w[16],mid[8]; for(int i=0;i<16;i++)w[i]=be(h+4*i); memcpy(mid,IV,32); comp(mid,w);
    for(uint32_t n=0;n<(1u<<26)&&!done;n++){
      uint32_t o[8]; dsha(h,mid,o,n);
      if(o[7]!=W7) continue;
      uint8_t hb[32]; for(int i=0;i<8;i++) for(int k=0;k<4;k++) hb[4*i+k]=o[i]>>(24-8*k);
      uint8_t le[32]; for(int i=0;i<32;i++) le[i]=hb[31-i];
      if(memcmp(le,MX,32)>0) continue;
      pthread_mutex_lock(&mu);
      if(!done){ done=1; h[76]=n>>24;h[77]=n>>16;h[78]=n>>8;h[79]=n;
        for(int i=0;i<80;i++)printf("%02x",h[i]); printf(" "); for(int i=0;i<32;i++)printf("%02x",le[i]); printf("\n"); }
      pthread_mutex_unlock(&mu); break;
    }
  }
  return 0;
}
int main(int c,char**v){
  for(int i=0;i<80;i++){unsigned x;sscanf(v[1]+2*i,"%2x",&x);H0[i]=x;}
  W7=strtoul(v[2],0,16); for(int i=0;i<32;i++){unsigned x;sscanf(v[3]+2*i,"%2x",&x);MX[i]=x;}
  int T=atoi(v[4]); pthread_t t[64]; for(int i=0;i<T;i++)pthread_create(&t[i],0,run,0); for(int i=0;i<T;i++)pthread_join(t[i],0);
}
