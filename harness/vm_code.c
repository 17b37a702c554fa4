/* The code under contract: /repo's interpreter, in a translation unit of its own so that loop
 * contracts are applied to it alone (helpers are not inlined into the harness and vice versa). */
#include "concordia.h"
#include "vm_exec.c" /* the real code, found through -I /repo/src/vm */
/* the host callback of the harness: the target of the interpreter's callback pointer */
cnd_error_t h_callback(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr);
cnd_io_cb h_callback_ref = h_callback;
