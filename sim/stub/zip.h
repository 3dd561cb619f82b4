/* Stand-in for kuba--/zip (not available offline): the archive writer runs on the simulated disk. */
#ifndef SIM_ZIP_H
#define SIM_ZIP_H
#include <stddef.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
struct zip_t;
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
#define zip_open simzip_open
#define zip_openwitherror simzip_openwitherror
#define zip_entry_open simzip_entry_open
#define zip_entry_write simzip_entry_write
#define zip_entry_fwrite simzip_entry_fwrite
#define zip_entry_close simzip_entry_close
#define zip_close simzip_close
#define zip_strerror simzip_strerror
#define zip_is64 simzip_is64
#define zip_total_entries simzip_entries_total
#define zip_entries_total simzip_entries_total
struct zip_t *zip_open(const char *zipname, int level, char mode);
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum);
int zip_entry_open(struct zip_t *zip, const char *entryname);
int zip_entry_write(struct zip_t *zip, const void *buf, size_t bufsize);
int zip_entry_fwrite(struct zip_t *zip, const char *filename);
int zip_entry_close(struct zip_t *zip);
void zip_close(struct zip_t *zip);
const char *zip_strerror(int errnum);
int zip_is64(struct zip_t *zip);
ssize_t zip_entries_total(struct zip_t *zip);
#ifdef __cplusplus
}
#endif
#endif
