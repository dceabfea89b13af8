// C08: reductions combine all contributions and reach all owners
#include "trans.h"
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("reductions", 1)) { while (next(1000000)) onecase(1); endtest(); }
    return finish();
}
