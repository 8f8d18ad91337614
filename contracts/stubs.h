/* Bodies assumed for functions outside the unit under verification (verifier build only). */
#ifndef STUBS_H
#define STUBS_H
#if MV_CBMC
//@ trusted mr_message() (diagnostics) is assumed to return and to leave all program data unchanged
#ifndef MV_NO_MESSAGE_STUB
void mr_message (const char * file_name, const char * func_name, int line, mr_log_level_t log_level, mr_message_id_t message_id, ...) { }
#endif
#endif
#endif
