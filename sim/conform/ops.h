#pragma once
#include <string>
struct Peer { int fd = -1; bool (*send)(Peer*, const char*) = 0; std::string (*take)(Peer*) = 0; bool (*close)(Peer*) = 0, (*shut)(Peer*) = 0, (*reset)(Peer*) = 0; int pfd = -1; void *c = 0; bool gone = false, shutw = false; };
Peer *peer_open(const char *kind); void peer_done(Peer *);
std::string scratch(); void drop_dir(const std::string &); void emit(const std::string &); void case_end();
std::string other_lock(const std::string &path);     // what another process finds when it asks for the lock
int net_port();                                        // a port nobody listens on
void later(int ms, void (*f)(int), int arg); void later_done();   // f(arg) so much later; wait until all are done
int conform_main(int, char**);
