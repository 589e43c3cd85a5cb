#include "eckit/eckit_version.h"

#ifdef __cplusplus
extern "C" {
#endif

const char * eckit_version()     { return "2.1.0"; }

const char * eckit_version_str() { return "2.1.0"; }

unsigned int eckit_version_int()
{
  return 10000*2 + 100*1 + 1*0;
}

const char * eckit_git_sha1() { return "7a80d01e813b7e23324433025f45b8e7867da426"; }

#ifdef __cplusplus
}
#endif
