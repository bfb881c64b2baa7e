// Settings that the command line determines.
typedef struct { int fast, keepalive; unsigned workers; long long duration; int nodes, port, clock, auth, tracing, exchanges; long long period; char id[300], host[300], user[300]; } cli_t;
#ifdef __cplusplus
extern "C" {
#endif
void cli_set(const cli_t*);
void cli_get(cli_t*);
int cli_parse(int argc, const char** argv);
int cli_stop_tag(long long start, long long* t, unsigned* m); // the stop tag of an environment starting there
void cli_errors(void (*f)(int level));                        // called for each message reported
#ifdef __cplusplus
}
#endif
