#include <fstream>
#include "hash.hpp"
#include "passwordhashandcount.hpp"
namespace witness {
bool hread(pwned::Hash &h, std::istream &f) { return h.read(f); }
bool hreadat(pwned::Hash &h, std::istream &f, std::streamoff pos) { return h.read(f, pos); }
bool pread(pwned::PHC &h, std::istream &f) { return h.read(f); }
bool preadat(pwned::PHC &h, std::istream &f, std::streamoff pos) { return h.read(f, pos); }
void dump(pwned::PHC &h, std::ofstream &f) { h.dump(f); }
void hcopy(pwned::Hash *to, const pwned::Hash *from) { *to = *from; }
pwned::Hash hctor(const pwned::Hash &h) { return pwned::Hash(h); }
pwned::PHC pctor(const pwned::Hash &h, uint32_t n) { return pwned::PHC(h, n); }
void pcopy(pwned::PHC *to, const pwned::PHC *from) { *to = *from; }
pwned::Hash hquad(uint64_t u, uint64_t l) { return pwned::Hash(u, l); }
uint64_t psize() { return pwned::PHC::size; }
uint64_t hsize() { return pwned::Hash::size; }
}
