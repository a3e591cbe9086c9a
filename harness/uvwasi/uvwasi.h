/* Stand-in for the header of libuvwasi, which is not installed here: the same types and prototypes as the library's, declared for
 * the bridge in /repo/pwart_syslib/libwasi.c.  The functions are defined by the harness P35.c, which records every call. */
#ifndef UVWASI_STANDIN_H
#define UVWASI_STANDIN_H
#include <stddef.h>
#include <stdint.h>
#include <uv.h>
#define UVWASI_VERSION_MAJOR 0
#define UVWASI_VERSION_MINOR 0
#define UVWASI_VERSION_PATCH 21
typedef uint32_t uvwasi_size_t; typedef uint16_t uvwasi_errno_t; typedef uint32_t uvwasi_fd_t; typedef uint8_t uvwasi_advice_t; typedef uint32_t uvwasi_clockid_t; typedef uint64_t uvwasi_device_t; typedef uint64_t uvwasi_dircookie_t;
typedef uint16_t uvwasi_eventrwflags_t; typedef uint8_t uvwasi_eventtype_t; typedef uint32_t uvwasi_exitcode_t; typedef uint16_t uvwasi_fdflags_t; typedef int64_t uvwasi_filedelta_t; typedef uint64_t uvwasi_filesize_t; typedef uint8_t uvwasi_filetype_t;
typedef uint16_t uvwasi_fstflags_t; typedef uint64_t uvwasi_inode_t; typedef uint64_t uvwasi_linkcount_t; typedef uint32_t uvwasi_lookupflags_t; typedef uint16_t uvwasi_oflags_t; typedef uint8_t uvwasi_preopentype_t; typedef uint16_t uvwasi_riflags_t;
typedef uint64_t uvwasi_rights_t; typedef uint16_t uvwasi_roflags_t; typedef uint8_t uvwasi_sdflags_t; typedef uint16_t uvwasi_siflags_t; typedef uint8_t uvwasi_signal_t; typedef uint16_t uvwasi_subclockflags_t; typedef uint64_t uvwasi_timestamp_t; typedef uint64_t uvwasi_userdata_t; typedef uint8_t uvwasi_whence_t;
enum { UVWASI_ESUCCESS = 0, UVWASI_E2BIG = 1, UVWASI_EACCES = 2, UVWASI_EAGAIN = 6, UVWASI_EBADF = 8, UVWASI_EFAULT = 21, UVWASI_EINVAL = 28, UVWASI_EIO = 29, UVWASI_ENOENT = 44, UVWASI_ENOMEM = 48, UVWASI_ENOSYS = 52, UVWASI_ENOTSUP = 58, UVWASI_EOVERFLOW = 61, UVWASI_ENOTCAPABLE = 76 };
typedef struct uvwasi_iovec_s { void *buf; uvwasi_size_t buf_len; } uvwasi_iovec_t;
typedef struct uvwasi_ciovec_s { const void *buf; uvwasi_size_t buf_len; } uvwasi_ciovec_t;
typedef struct uvwasi_fdstat_s { uvwasi_filetype_t fs_filetype; uvwasi_fdflags_t fs_flags; uvwasi_rights_t fs_rights_base, fs_rights_inheriting; } uvwasi_fdstat_t;
typedef struct uvwasi_filestat_s { uvwasi_device_t st_dev; uvwasi_inode_t st_ino; uvwasi_linkcount_t st_nlink; uvwasi_filesize_t st_size; uvwasi_filetype_t st_filetype; uvwasi_timestamp_t st_atim, st_mtim, st_ctim; } uvwasi_filestat_t;
typedef struct uvwasi_prestat_s { uvwasi_preopentype_t pr_type; union { struct { uvwasi_size_t pr_name_len; } dir; } u; } uvwasi_prestat_t;
typedef struct uvwasi_event_s { uvwasi_userdata_t userdata; uvwasi_errno_t error; uvwasi_eventtype_t type; union { struct { uvwasi_filesize_t nbytes; uvwasi_eventrwflags_t flags; } fd_readwrite; } u; } uvwasi_event_t;
typedef struct uvwasi_subscription_s { uvwasi_userdata_t userdata; uvwasi_eventtype_t type; union { struct { uvwasi_clockid_t clock_id; uvwasi_timestamp_t timeout, precision; uvwasi_subclockflags_t flags; } clock; struct { uvwasi_fd_t fd; } fd_readwrite; } u; } uvwasi_subscription_t;
typedef struct uvwasi_mem_s { void *mem_user_data; void *(*malloc)(size_t, void *); void (*free)(void *, void *); void *(*calloc)(size_t, size_t, void *); void *(*realloc)(void *, size_t, void *); } uvwasi_mem_t;
struct uvwasi_fd_table_t;
typedef struct uvwasi_s { struct uvwasi_fd_table_t *fds; uvwasi_size_t argc; char **argv; char *argv_buf; uvwasi_size_t argv_buf_size; uvwasi_size_t envc; char **env; char *env_buf; uvwasi_size_t env_buf_size; const uvwasi_mem_t *allocator; uv_loop_t *loop; } uvwasi_t;
typedef struct uvwasi_preopen_s { const char *mapped_path; const char *real_path; } uvwasi_preopen_t;
typedef struct uvwasi_preopen_socket_s { const char *address; int port; } uvwasi_preopen_socket_t;
typedef struct uvwasi_options_s { uvwasi_size_t fd_table_size; uvwasi_size_t preopenc; uvwasi_preopen_t *preopens; uvwasi_size_t preopen_socketc; uvwasi_preopen_socket_t *preopen_sockets; uvwasi_size_t argc; const char **argv; const char **envp; uvwasi_fd_t in, out, err; const uvwasi_mem_t *allocator; } uvwasi_options_t;
uvwasi_errno_t uvwasi_init(uvwasi_t *, const uvwasi_options_t *); void uvwasi_destroy(uvwasi_t *); void uvwasi_options_init(uvwasi_options_t *); const char *uvwasi_embedder_err_code_to_string(uvwasi_errno_t);
#define UVW(name, ...) uvwasi_errno_t uvwasi_##name(uvwasi_t *, ##__VA_ARGS__);
UVW(args_get, char **, char *) UVW(args_sizes_get, uvwasi_size_t *, uvwasi_size_t *) UVW(clock_res_get, uvwasi_clockid_t, uvwasi_timestamp_t *) UVW(clock_time_get, uvwasi_clockid_t, uvwasi_timestamp_t, uvwasi_timestamp_t *)
UVW(environ_get, char **, char *) UVW(environ_sizes_get, uvwasi_size_t *, uvwasi_size_t *) UVW(fd_advise, uvwasi_fd_t, uvwasi_filesize_t, uvwasi_filesize_t, uvwasi_advice_t) UVW(fd_allocate, uvwasi_fd_t, uvwasi_filesize_t, uvwasi_filesize_t)
UVW(fd_close, uvwasi_fd_t) UVW(fd_datasync, uvwasi_fd_t) UVW(fd_fdstat_get, uvwasi_fd_t, uvwasi_fdstat_t *) UVW(fd_fdstat_set_flags, uvwasi_fd_t, uvwasi_fdflags_t) UVW(fd_fdstat_set_rights, uvwasi_fd_t, uvwasi_rights_t, uvwasi_rights_t)
UVW(fd_filestat_get, uvwasi_fd_t, uvwasi_filestat_t *) UVW(fd_filestat_set_size, uvwasi_fd_t, uvwasi_filesize_t) UVW(fd_filestat_set_times, uvwasi_fd_t, uvwasi_timestamp_t, uvwasi_timestamp_t, uvwasi_fstflags_t)
UVW(fd_pread, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_filesize_t, uvwasi_size_t *) UVW(fd_prestat_get, uvwasi_fd_t, uvwasi_prestat_t *) UVW(fd_prestat_dir_name, uvwasi_fd_t, char *, uvwasi_size_t)
UVW(fd_pwrite, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_filesize_t, uvwasi_size_t *) UVW(fd_read, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_size_t *) UVW(fd_readdir, uvwasi_fd_t, void *, uvwasi_size_t, uvwasi_dircookie_t, uvwasi_size_t *)
UVW(fd_renumber, uvwasi_fd_t, uvwasi_fd_t) UVW(fd_seek, uvwasi_fd_t, uvwasi_filedelta_t, uvwasi_whence_t, uvwasi_filesize_t *) UVW(fd_sync, uvwasi_fd_t) UVW(fd_tell, uvwasi_fd_t, uvwasi_filesize_t *) UVW(fd_write, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_size_t *)
UVW(path_create_directory, uvwasi_fd_t, const char *, uvwasi_size_t) UVW(path_filestat_get, uvwasi_fd_t, uvwasi_lookupflags_t, const char *, uvwasi_size_t, uvwasi_filestat_t *)
UVW(path_filestat_set_times, uvwasi_fd_t, uvwasi_lookupflags_t, const char *, uvwasi_size_t, uvwasi_timestamp_t, uvwasi_timestamp_t, uvwasi_fstflags_t) UVW(path_link, uvwasi_fd_t, uvwasi_lookupflags_t, const char *, uvwasi_size_t, uvwasi_fd_t, const char *, uvwasi_size_t)
UVW(path_open, uvwasi_fd_t, uvwasi_lookupflags_t, const char *, uvwasi_size_t, uvwasi_oflags_t, uvwasi_rights_t, uvwasi_rights_t, uvwasi_fdflags_t, uvwasi_fd_t *) UVW(path_readlink, uvwasi_fd_t, const char *, uvwasi_size_t, char *, uvwasi_size_t, uvwasi_size_t *)
UVW(path_remove_directory, uvwasi_fd_t, const char *, uvwasi_size_t) UVW(path_rename, uvwasi_fd_t, const char *, uvwasi_size_t, uvwasi_fd_t, const char *, uvwasi_size_t) UVW(path_symlink, const char *, uvwasi_size_t, uvwasi_fd_t, const char *, uvwasi_size_t) UVW(path_unlink_file, uvwasi_fd_t, const char *, uvwasi_size_t)
UVW(poll_oneoff, const uvwasi_subscription_t *, uvwasi_event_t *, uvwasi_size_t, uvwasi_size_t *) UVW(proc_exit, uvwasi_exitcode_t) UVW(proc_raise, uvwasi_signal_t) UVW(random_get, void *, uvwasi_size_t) UVW(sched_yield)
UVW(sock_accept, uvwasi_fd_t, uvwasi_fdflags_t, uvwasi_fd_t *) UVW(sock_recv, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_riflags_t, uvwasi_size_t *, uvwasi_roflags_t *) UVW(sock_send, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_siflags_t, uvwasi_size_t *) UVW(sock_shutdown, uvwasi_fd_t, uvwasi_sdflags_t)
#undef UVW
#endif
