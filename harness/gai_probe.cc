// Linked to the tools: numeric addresses resolve on a machine whose only interface is the loopback.
#include <netdb.h>
#include <sys/types.h>
#include <sys/socket.h>
extern "C" int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
extern "C" int __wrap_getaddrinfo(const char* n, const char* s, const addrinfo* h, addrinfo** r)
{
  addrinfo x{}; if (h) { x = *h; x.ai_flags &= ~AI_ADDRCONFIG; }
  return __real_getaddrinfo(n, s, h ? &x : nullptr, r);
}
