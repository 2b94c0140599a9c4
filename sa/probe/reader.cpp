#include <string>
#include <vector>
#include <new>
#include "userpasswordreader.hpp"
namespace witness {
pwned::Hash nexthash(pwned::UserPasswordReader &r) { return r.nextPasswordHash(); }
std::string nextpassword(pwned::UserPasswordReader &r) { return r.nextPassword(); }
bool ateof(pwned::UserPasswordReader &r) { return r.eof(); }
void ctor(void *p, std::istream &s, const std::vector<pwned::UserPasswordReaderOptions> &o) { new (p) pwned::UserPasswordReader(s, o); }
}
namespace witness {
int opt0() { return pwned::forceEvaluateMD5Hashes; }
int opt1() { return pwned::forceEvaluateHexEncodedPasswords; }
int opt2() { return pwned::autoEvaluateMD5Hashes; }
int opt3() { return pwned::autoEvaluateHexEncodedPasswords; }
}
