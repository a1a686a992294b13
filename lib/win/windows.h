/* declarations of the four Windows names randombytes.c uses, so that its _WIN32 branch can be compiled here */
#ifndef VC_WINDOWS_H
#define VC_WINDOWS_H
typedef unsigned long VC_HCRYPTPROV;
#define HCRYPTPROV VC_HCRYPTPROV
typedef unsigned char BYTE;
typedef unsigned int DWORD;
int CryptAcquireContext(HCRYPTPROV *ctx, const char *container, const char *provider, DWORD type, DWORD flags);
int CryptGenRandom(HCRYPTPROV ctx, DWORD len, BYTE *buf);
int CryptReleaseContext(HCRYPTPROV ctx, DWORD flags);
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#endif
