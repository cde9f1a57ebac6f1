// Sessions of the public API, judged by LibraryTrace.tla.
#include "gen.hpp"
#include "main.hpp"
int main(int argc, char **argv) { return driver<Session, Gen>(argc, argv); }
