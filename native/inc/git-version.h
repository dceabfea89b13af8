#define GIT_REV "native"
#define GIT_VERSION "native"
