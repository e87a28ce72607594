#include "qclient/QClient.hh"
