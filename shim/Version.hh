#ifndef __QUARKDB_VERSION_H__
#define __QUARKDB_VERSION_H__
#define VERSION_FULL_STRING "0.0.verif"
#endif
