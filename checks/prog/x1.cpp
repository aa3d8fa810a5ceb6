#include "mem/mem_debug.h"
#include "memprog.h"
#define UNIT unit_x1
#define UNIT_FILE "x1.cpp"
namespace {
struct Obj { char data[OBJ]; Obj() { ++mp_objects; } ~Obj() { --mp_objects; } };
struct Thrower { static int &n() { static int k = 0; return k; } char data[40]; Thrower() { if (++n() == 2) { n() = 0; throw 8; } } explicit Thrower(int x) { throw x; } ~Thrower() {} };
}
#include "memunit.inc"
