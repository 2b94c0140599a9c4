#include "hash.hpp"
#include "passwordhashandcount.hpp"
namespace witness {
bool hashless(const pwned::Hash &a, const pwned::Hash &b) { return pwned::HashLess()(a, b); }
bool phcless(const pwned::PHC &a, const pwned::PHC &b) { return pwned::PasswordHashAndCountLess()(a, b); }
bool phceq(const pwned::PHC &a, const pwned::PHC &b) { return a == b; }
}
