#include <string>
#include <sstream>
#include "hash.hpp"
#include "util.hpp"
namespace witness {
int hexdigit(char c) { return pwned::decodeHex(c); }
pwned::Hash fromhex(const std::string &s) { return pwned::Hash::fromHex(s); }
pwned::Hash password(const std::string &s) { return pwned::Hash(s); }
std::string lower(const pwned::Hash &h) { return h.toString(); }
std::string upper(const pwned::Hash &h) { return h.toString(true); }
void print(std::ostream &o, const pwned::Hash &h) { o << h; }
bool charseq(const std::string &s, std::string &r) { return pwned::hexToCharSeq(s, r); }
}
