// Witnesses: the comparison interface of the library, as its users see it.
#include "hash.hpp"
#include "passwordhashandcount.hpp"
namespace witness {
bool lt(const pwned::Hash &a, const pwned::Hash &b) { return a < b; }
bool gt(const pwned::Hash &a, const pwned::Hash &b) { return a > b; }
bool le(const pwned::Hash &a, const pwned::Hash &b) { return a <= b; }
bool ge(const pwned::Hash &a, const pwned::Hash &b) { return a >= b; }
bool eq(const pwned::Hash &a, const pwned::Hash &b) { return a == b; }
bool ne(const pwned::Hash &a, const pwned::Hash &b) { return a != b; }
}
