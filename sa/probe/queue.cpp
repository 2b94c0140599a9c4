// every member of the queue, the operation and the semaphore
#include <pwned-lib/operationqueue.hpp>
namespace probe {
struct Op : pwned::Operation { void execute() noexcept(false) override; };
}
template class pwned::OperationQueue<probe::Op>;
namespace probe {
void sem_wait(pwned::Semaphore *s) { s->wait(); }
void sem_notify(pwned::Semaphore *s) { s->notify(); }
void sem_capacity(pwned::Semaphore *s, unsigned n) { s->setCapacity(n); }
unsigned sem_get(pwned::Semaphore *s) { return s->capacity(); }
}
