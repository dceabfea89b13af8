// C07: transitions contain exactly the needed operations and match across processes
#include "trans.h"
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("transition", 1)) { while (next(1000000)) onecase(0); endtest(); }
    return finish();
}
