// Name resolution under the control of a harness: gethostbyname and getaddrinfo answer from one function.
// As POSIX allows and glibc does, gethostbyname returns static storage that the next call of any thread overwrites.
#pragma once
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <functional>
#include <string>
namespace vp
{
    // false: the name is unknown; not set: the real resolver
    inline std::function<bool(const std::string&, unsigned char* ip)>& resolver() { static auto* f = new std::function<bool(const std::string&, unsigned char*)>; return *f; }
}
extern "C"
{
    __attribute__((no_sanitize_thread)) struct hostent* gethostbyname(const char* name)
    {
        if (!vp::resolver()) return ((struct hostent* (*)(const char*))dlsym(RTLD_NEXT, "gethostbyname"))(name);
        static volatile unsigned char* ip = (volatile unsigned char*)calloc(1, 4);
        static char* list[2] = {(char*)ip, nullptr};
        static struct hostent h = {nullptr, list + 1, AF_INET, 4, list};
        unsigned char a[4];
        if (!vp::resolver()(name, a)) { h_errno = HOST_NOT_FOUND; return nullptr; }
        for (int i = 0; i < 4; i++) ip[i] = a[i];
        return &h;
    }
    int getaddrinfo(const char* name, const char* service, const struct addrinfo* hints, struct addrinfo** out)
    {
        unsigned char a[4] = {0, 0, 0, 0};
        struct in_addr num;
        if (name && inet_aton(name, &num)) memcpy(a, &num, 4);
        else if (!vp::resolver()) return ((int (*)(const char*, const char*, const struct addrinfo*, struct addrinfo**))dlsym(RTLD_NEXT, "getaddrinfo"))(name, service, hints, out);
        else if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != AF_INET) return EAI_NONAME;
        else if (!name || !vp::resolver()(name, a)) return EAI_NONAME;
        struct Block { struct addrinfo ai; struct sockaddr_in sa; };
        Block* b = (Block*)calloc(1, sizeof(Block));
        b->sa.sin_family = AF_INET;
        b->sa.sin_port = htons((uint16_t)(service ? atoi(service) : 0));
        memcpy(&b->sa.sin_addr, a, 4);
        b->ai.ai_flags = -7777; // made here
        b->ai.ai_family = AF_INET;
        b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        b->ai.ai_addrlen = sizeof b->sa;
        b->ai.ai_addr = (struct sockaddr*)&b->sa;
        *out = &b->ai;
        return 0;
    }
    void freeaddrinfo(struct addrinfo* ai)
    {
        if (ai && ai->ai_flags == -7777) { free(ai); return; }
        ((void (*)(struct addrinfo*))dlsym(RTLD_NEXT, "freeaddrinfo"))(ai);
    }
}
