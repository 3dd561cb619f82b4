/* Licence manager stand-in, compiled into the LVE images: the decisions and the record are the simulator's. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"
struct mlle_license { int id; };
extern int simlic_new(const char *libpath, char *why, size_t n);
extern void simlic_free(int id);
extern int simlic_op(int id, int checkin, size_t len, const char *feature, char *why, size_t n);
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error)
{
    char why[512];
    int id = simlic_new(libpath, why, sizeof why);
    struct mlle_license *m;
    if (id < 0) {
        if (error) *error = mlle_error_new(LICENSE_DOMAIN, LICENSE_ERROR_INITIALIZATION_FAILURE, "%s", why);
        return NULL;
    }
    m = calloc(1, sizeof *m);
    if (!m) {
        simlic_free(id);
        if (error) *error = mlle_error_new(LICENSE_DOMAIN, LICENSE_ERROR_INITIALIZATION_FAILURE, "out of memory in licence manager");
        return NULL;
    }
    m->id = id;
    return m;
}
void mlle_license_free(struct mlle_license *m)
{
    if (m) { simlic_free(m->id); free(m); }
}
static int op(struct mlle_license *m, int in, size_t len, const char *f, struct mlle_error **error)
{
    char why[512];
    if (simlic_op(m ? m->id : -1, in, len, f, why, sizeof why)) return MLLE_LIC_SUCCESS;
    if (error) *error = mlle_error_new(LICENSE_DOMAIN, in ? LICENSE_ERROR_CHECKIN_FAILURE : LICENSE_ERROR_CHECKOUT_FAILURE, "%s", why);
    return MLLE_LIC_FAILURE;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t len, const char *f, struct mlle_error **error) { return op(m, 0, len, f, error); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t len, const char *f, struct mlle_error **error) { return op(m, 1, len, f, error); }
