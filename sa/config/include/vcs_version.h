/* auto-generated, do not edit */
#define DAV1D_VERSION "ce25840"
