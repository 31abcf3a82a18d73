// The netCDF library crashes in its own error report when HDF5 cannot close a
// file, and keeps the file open.  Failures of closing are therefore decided
// here: what is still unwritten is flushed to the failing disk, then the
// library closes the file on a healthy one, the second half of the file is lost
// and the failure is reported.
#include "common.h"
#include <dlfcn.h>
#include <netcdf.h>

extern "C" int nc_close(int id) {
    static auto real = (int (*)(int))dlsym(RTLD_NEXT, "nc_close");
    int rc = NC_NOERR; size_t len = 0;
    char path[256] = "";
    if (nc_inq_path(id, &len, nullptr) == NC_NOERR && len < sizeof path) { nc_inq_path(id, &len, path); path[len] = 0; }
    if (!sim::io_writing(path)) path[0] = 0;
    if (path[0]) rc = nc_sync(id);
    int k = sim::io_decide("ncclose", true);
    bool was = sim::io_suspend(true);
    int r = real(id);
    sim::io_suspend(was);
    if (path[0] && (rc != NC_NOERR || k)) sim::io_lose_half(path);
    return r != NC_NOERR ? r : rc != NC_NOERR ? rc : k ? NC_EHDFERR : NC_NOERR;
}
