/* dav1d_send_data with a size and no data: dereferences the null data pointer before the repair, DAV1D_ERR(EINVAL) after it.
 * gcc c14_nodata.c -I/repo/include -I<build>/include/dav1d ... -ldav1d */
#include <stdio.h>
#include "dav1d/dav1d.h"
int main(void) {
    Dav1dSettings s; Dav1dContext *c; Dav1dData d = { 0 };
    dav1d_default_settings(&s); s.n_threads = 1;
    if (dav1d_open(&c, &s)) return 2;
    d.sz = 16;
    int res = dav1d_send_data(c, &d);
    printf("result %d\n", res);
    dav1d_close(&c);
    return res != DAV1D_ERR(EINVAL);
}
