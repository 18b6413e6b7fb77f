/* What the functions of hash_fct.c are to do: MurmurHash3, 32 bits. */
#include "../EnginePl/gp_config.h"
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include "hash_fct.h"

uint32_t Hash_Buffer_Aligned(const void *key, int len, uint32_t seed);
uint32_t Hash_Buffer_Unaligned(const void *key, int len, uint32_t seed);
uint32_t Hash_Buffer(const void *key, int len, uint32_t seed);


static uint32_t
ROTL32(uint32_t x, int8_t r)
{
  return (x << r) | (x >> (32 - r));
}
static uint32_t
Hash_Initialize(void)
{
  return 1688943522;
}

static uint32_t
Hash_Block(uint32_t k1, uint32_t h1)
{
  const uint32_t c1 = 0xcc9e2d51;
  const uint32_t c2 = 0x1b873593;

  k1 *= c1;
  k1 = ROTL32(k1, 15);
  k1 *= c2;

  h1 ^= k1;
  h1 = ROTL32(h1, 13);
  h1 = h1 * 5 + 0xe6546b64;

  return h1;
}
static uint32_t
Hash_Finalize(uint32_t h, int len)
{
  h ^= len;

  h ^= h >> 16;
  h *= 0x85ebca6b;
  h ^= h >> 13;
  h *= 0xc2b2ae35;
  h ^= h >> 16;

  return h;
}
uint32_t
ref_Hash_Buffer_Aligned(const void *key, int len, uint32_t seed)
{
  uint8_t *data = (uint8_t *) key;
  const uint8_t *limit_block = data + len - 4;

  const uint32_t c1 = 0xcc9e2d51;
  const uint32_t c2 = 0x1b873593;

  uint32_t h1 = seed;
  uint32_t k1;

  while(data <= limit_block)
    {

      k1 = *(uint32_t *) data;

      data += 4;
      h1 = Hash_Block(k1, h1);
    }

  k1 = 0;

  switch (len & 3)
    {
    case 3:
      k1 ^= data[2] << 16;

    case 2:
      k1 ^= data[1] << 8;

    case 1:
      k1 ^= data[0];
      k1 *= c1;
      k1 = ROTL32(k1, 15);
      k1 *= c2;
      h1 ^= k1;
    }

  return h1;
}

uint32_t
ref_Hash_Buffer_Unaligned(const void *key, int len, uint32_t seed)
{
  uint8_t *data = (uint8_t *) key;
  const uint8_t *limit_block = data + len - 4;

  const uint32_t c1 = 0xcc9e2d51;
  const uint32_t c2 = 0x1b873593;

  uint32_t h1 = seed;
  uint32_t k1;

  while(data <= limit_block)
    {

      memcpy(&k1, data, 4);

      data += 4;
      h1 = Hash_Block(k1, h1);
    }

  k1 = 0;

  switch (len & 3)
    {
    case 3:
      k1 ^= data[2] << 16;

    case 2:
      k1 ^= data[1] << 8;

    case 1:
      k1 ^= data[0];
      k1 *= c1;
      k1 = ROTL32(k1, 15);
      k1 *= c2;
      h1 ^= k1;
    }

  return h1;
}

uint32_t
ref_Hash_Buffer(const void *key, int len, uint32_t seed)
{
  if (((uintptr_t) key & 3) == 0)
    return Hash_Buffer_Aligned(key, len, seed);

  return Hash_Buffer_Unaligned(key, len, seed);
}
uint32_t
ref_Pl_Hash_Buffer(const void *data, int len)
{
  uint32_t hash = Hash_Initialize();
  hash = Hash_Buffer(data, len, hash);
  hash = Hash_Finalize(hash, len);
  return hash;
}
void
ref_Pl_Hash_Incr_Init(HashIncrInfo *hi)
{
  hi->len = 0;
  hi->hash = Hash_Initialize();
}
void
ref_Pl_Hash_Incr_Buffer(HashIncrInfo *hi, const void *data, int len)
{
  hi->len += len;
  hi->hash = Hash_Buffer(data, len, hi->hash);
}
void
ref_Pl_Hash_Incr_Int32(HashIncrInfo *hi, uint32_t x)
{
  hi->len += 4;
  hi->hash = Hash_Block(__uint32_identity (x), hi->hash);
}
void
ref_Pl_Hash_Incr_Int64(HashIncrInfo *hi, uint64_t x)
{
  Pl_Hash_Incr_Int32(hi, (uint32_t) x);
  Pl_Hash_Incr_Int32(hi, x >> 32);
}
void
ref_Pl_Hash_Incr_Double(HashIncrInfo *hi, double x)
{
  int exp;
  uint64_t man64;
  uint64_t rest;

  x = frexp(x, &exp);

  if (x < 0.0)
    x = -(x + 0.5);

  x *= ((uint64_t) 1 << 63);
  man64 = (int64_t) x;
  rest = 0;
  man64 = man64 + rest + (((uint64_t) 1 << 63) / 1024) * exp;

  Pl_Hash_Incr_Int64(hi, man64);

}
uint32_t
ref_Pl_Hash_Incr_Term(HashIncrInfo *hi)
{
  hi->hash = Hash_Finalize(hi->hash, hi->len);
  return hi->hash;
}
