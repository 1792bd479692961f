/* Stand-in for the PAPI library, which is not installed here: the calls and constants the profiler uses.
   The harness implements the calls (h_C30.cpp) with the state rules of the real library and injected failures. */
#ifndef VERIF_PAPI_H
#define VERIF_PAPI_H
#ifdef __cplusplus
extern "C" {
#endif
#define PAPI_MAX_STR_LEN 128
#define PAPI_MIN_STR_LEN 64
#define PAPI_NULL (-1)
#define PAPI_OK 0
#define PAPI_EINVAL (-1)
#define PAPI_ECNFLCT (-8)
#define PAPI_ENOTRUN (-9)
#define PAPI_EISRUN (-10)
#define PAPI_ENOEVST (-11)
#define PAPI_ENOINIT (-16)
#define PAPI_VER_CURRENT 0x06000000
#define PAPI_NOT_INITED 0
#define PAPI_LOW_LEVEL_INITED 1
#define PAPI_L1_DCM ((int)0x80000000)
#define PAPI_L2_DCM ((int)0x80000002)
#define PAPI_L1_TCM ((int)0x80000006)
#define PAPI_L2_TCM ((int)0x80000007)
#define PAPI_L3_TCM ((int)0x80000008)
#define PAPI_TLB_DM ((int)0x80000014)
#define PAPI_BR_MSP ((int)0x8000002e)
#define PAPI_TOT_INS ((int)0x80000032)
#define PAPI_LST_INS ((int)0x8000003c)
#define PAPI_BR_INS ((int)0x80000037)
#define PAPI_RES_STL ((int)0x80000039)
#define PAPI_TOT_CYC ((int)0x8000003b)
#define PAPI_L2_DCA ((int)0x80000041)
#define PAPI_L2_TCA ((int)0x80000059)
#define PAPI_L3_TCA ((int)0x8000005a)
#define PAPI_REF_CYC ((int)0x8000006b)
int PAPI_library_init(int version);
int PAPI_is_initialized(void);
void PAPI_shutdown(void);
int PAPI_event_code_to_name(int code, char *out);
int PAPI_create_eventset(int *set);
int PAPI_cleanup_eventset(int set);
int PAPI_destroy_eventset(int *set);
int PAPI_add_event(int set, int event);
int PAPI_add_events(int set, int *events, int number);
int PAPI_num_events(int set);
int PAPI_reset(int set);
int PAPI_start(int set);
int PAPI_stop(int set, long long *values);
int PAPI_read(int set, long long *values);
int PAPI_accum(int set, long long *values);
char *PAPI_strerror(int code);
#ifdef __cplusplus
}
#endif
#endif
