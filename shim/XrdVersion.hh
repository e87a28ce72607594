#define XrdVERSION "v5.shim"
#define XrdVSTRING "v5.shim"
