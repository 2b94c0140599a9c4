#include <string>
#include "passwordinspector.hpp"
namespace witness {
pwned::PHC find(pwned::PasswordInspector &i, const pwned::Hash &h) { return i.binsearch(h); }
pwned::PHC findn(pwned::PasswordInspector &i, const pwned::Hash &h, int *n) { return i.binsearch(h, n); }
pwned::PHC smart(pwned::PasswordInspector &i, const pwned::Hash &h) { return i.smart_binsearch(h); }
pwned::PHC lookup(pwned::PasswordInspector &i, const std::string &s) { return i.lookup(s); }
std::size_t size(pwned::PasswordInspector &i) { return i.size(); }
bool open1(pwned::PasswordInspector &i, const std::string &f) { return i.open(f); }
bool open2(pwned::PasswordInspector &i, const std::string &f, const std::string &x) { return i.open(f, x); }
void ctor1(void *p, const std::string &f) { new (p) pwned::PasswordInspector(f); }
void ctor2(void *p, const std::string &f, const std::string &x) { new (p) pwned::PasswordInspector(f, x); }
}
