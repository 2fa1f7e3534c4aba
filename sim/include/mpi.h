/* Simulated MPI: the interface the library is compiled against (see ../mpi.cpp). */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#if defined(SIM_OMPI4)
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION 4
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#elif defined(SIM_OMPI5)
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION 5
#define OMPI_MINOR_VERSION 0
#define OMPI_RELEASE_VERSION 3
#elif defined(SIM_MPICH)
#define MPICH 1
#define MPICH_VERSION "4.1.2"
#define MPICH_NUMVERSION 40102300
#define MPICH_NAME 3
#endif
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;

typedef struct simmpi_comm_s *MPI_Comm;
typedef struct simmpi_group_s *MPI_Group;
typedef struct simmpi_datatype_s *MPI_Datatype;
typedef struct simmpi_request_s *MPI_Request;
typedef struct simmpi_op_s *MPI_Op;
typedef struct simmpi_win_s *MPI_Win;
typedef struct simmpi_info_s *MPI_Info;
typedef struct simmpi_errhandler_s *MPI_Errhandler;
typedef struct simmpi_message_s *MPI_Message;
typedef struct simmpi_file_s *MPI_File;
#define MPI_COMM_NULL ((MPI_Comm)(uintptr_t)0x10000001ULL)
#define MPI_COMM_WORLD ((MPI_Comm)(uintptr_t)0x10000002ULL)
#define MPI_COMM_SELF ((MPI_Comm)(uintptr_t)0x10000003ULL)
#define MPI_GROUP_NULL ((MPI_Group)(uintptr_t)0x20000001ULL)
#define MPI_GROUP_EMPTY ((MPI_Group)(uintptr_t)0x20000002ULL)
#define MPI_REQUEST_NULL ((MPI_Request)(uintptr_t)0x40000001ULL)
#define MPI_WIN_NULL ((MPI_Win)(uintptr_t)0x60000001ULL)
#define MPI_INFO_NULL ((MPI_Info)(uintptr_t)0x70000001ULL)
#define MPI_INFO_ENV ((MPI_Info)(uintptr_t)0x70000002ULL)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)(uintptr_t)0x80000001ULL)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)(uintptr_t)0x80000002ULL)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)(uintptr_t)0x80000003ULL)
#define MPI_MESSAGE_NULL ((MPI_Message)(uintptr_t)0x90000001ULL)
#define MPI_MESSAGE_NO_PROC ((MPI_Message)(uintptr_t)0x90000002ULL)
#define MPI_FILE_NULL ((MPI_File)(uintptr_t)0xa0000001ULL)
#define MPI_OP_NULL ((MPI_Op)(uintptr_t)0x50000001ULL)
#define MPI_MAX ((MPI_Op)(uintptr_t)0x50000002ULL)
#define MPI_MIN ((MPI_Op)(uintptr_t)0x50000003ULL)
#define MPI_SUM ((MPI_Op)(uintptr_t)0x50000004ULL)
#define MPI_PROD ((MPI_Op)(uintptr_t)0x50000005ULL)
#define MPI_LAND ((MPI_Op)(uintptr_t)0x50000006ULL)
#define MPI_BAND ((MPI_Op)(uintptr_t)0x50000007ULL)
#define MPI_LOR ((MPI_Op)(uintptr_t)0x50000008ULL)
#define MPI_BOR ((MPI_Op)(uintptr_t)0x50000009ULL)
#define MPI_LXOR ((MPI_Op)(uintptr_t)0x5000000aULL)
#define MPI_BXOR ((MPI_Op)(uintptr_t)0x5000000bULL)
#define MPI_MAXLOC ((MPI_Op)(uintptr_t)0x5000000cULL)
#define MPI_MINLOC ((MPI_Op)(uintptr_t)0x5000000dULL)
#define MPI_REPLACE ((MPI_Op)(uintptr_t)0x5000000eULL)
#define MPI_NO_OP ((MPI_Op)(uintptr_t)0x5000000fULL)
#define MPI_DATATYPE_NULL ((MPI_Datatype)(uintptr_t)0x30000001ULL)
#define MPI_BYTE ((MPI_Datatype)(uintptr_t)0x30000002ULL)
#define MPI_CHAR ((MPI_Datatype)(uintptr_t)0x30000003ULL)
#define MPI_SIGNED_CHAR ((MPI_Datatype)(uintptr_t)0x30000004ULL)
#define MPI_UNSIGNED_CHAR ((MPI_Datatype)(uintptr_t)0x30000005ULL)
#define MPI_SHORT ((MPI_Datatype)(uintptr_t)0x30000006ULL)
#define MPI_UNSIGNED_SHORT ((MPI_Datatype)(uintptr_t)0x30000007ULL)
#define MPI_INT ((MPI_Datatype)(uintptr_t)0x30000008ULL)
#define MPI_UNSIGNED ((MPI_Datatype)(uintptr_t)0x30000009ULL)
#define MPI_LONG ((MPI_Datatype)(uintptr_t)0x3000000aULL)
#define MPI_UNSIGNED_LONG ((MPI_Datatype)(uintptr_t)0x3000000bULL)
#define MPI_LONG_LONG_INT ((MPI_Datatype)(uintptr_t)0x3000000cULL)
#define MPI_UNSIGNED_LONG_LONG ((MPI_Datatype)(uintptr_t)0x3000000dULL)
#define MPI_FLOAT ((MPI_Datatype)(uintptr_t)0x3000000eULL)
#define MPI_DOUBLE ((MPI_Datatype)(uintptr_t)0x3000000fULL)
#define MPI_LONG_DOUBLE ((MPI_Datatype)(uintptr_t)0x30000010ULL)
#define MPI_C_FLOAT_COMPLEX ((MPI_Datatype)(uintptr_t)0x30000011ULL)
#define MPI_C_DOUBLE_COMPLEX ((MPI_Datatype)(uintptr_t)0x30000012ULL)
#define MPI_INT8_T ((MPI_Datatype)(uintptr_t)0x30000013ULL)
#define MPI_INT16_T ((MPI_Datatype)(uintptr_t)0x30000014ULL)
#define MPI_INT32_T ((MPI_Datatype)(uintptr_t)0x30000015ULL)
#define MPI_INT64_T ((MPI_Datatype)(uintptr_t)0x30000016ULL)
#define MPI_UINT8_T ((MPI_Datatype)(uintptr_t)0x30000017ULL)
#define MPI_UINT16_T ((MPI_Datatype)(uintptr_t)0x30000018ULL)
#define MPI_UINT32_T ((MPI_Datatype)(uintptr_t)0x30000019ULL)
#define MPI_UINT64_T ((MPI_Datatype)(uintptr_t)0x3000001aULL)
#define MPI_AINT ((MPI_Datatype)(uintptr_t)0x3000001bULL)
#define MPI_COUNT ((MPI_Datatype)(uintptr_t)0x3000001cULL)
#define MPI_OFFSET ((MPI_Datatype)(uintptr_t)0x3000001dULL)
#define MPI_C_BOOL ((MPI_Datatype)(uintptr_t)0x3000001eULL)
#define MPI_WCHAR ((MPI_Datatype)(uintptr_t)0x3000001fULL)
#define MPI_PACKED ((MPI_Datatype)(uintptr_t)0x30000020ULL)
#define MPI_FLOAT_INT ((MPI_Datatype)(uintptr_t)0x30000021ULL)
#define MPI_DOUBLE_INT ((MPI_Datatype)(uintptr_t)0x30000022ULL)
#define MPI_LONG_INT ((MPI_Datatype)(uintptr_t)0x30000023ULL)
#define MPI_2INT ((MPI_Datatype)(uintptr_t)0x30000024ULL)
#define MPI_SHORT_INT ((MPI_Datatype)(uintptr_t)0x30000025ULL)
#define MPI_LONG_LONG MPI_LONG_LONG_INT
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_CXX_BOOL MPI_C_BOOL
#define MPI_SUCCESS (0)
#define MPI_ERR_BUFFER (1)
#define MPI_ERR_COUNT (2)
#define MPI_ERR_TYPE (3)
#define MPI_ERR_TAG (4)
#define MPI_ERR_COMM (5)
#define MPI_ERR_RANK (6)
#define MPI_ERR_REQUEST (7)
#define MPI_ERR_ROOT (8)
#define MPI_ERR_GROUP (9)
#define MPI_ERR_OP (10)
#define MPI_ERR_ARG (13)
#define MPI_ERR_UNKNOWN (14)
#define MPI_ERR_TRUNCATE (15)
#define MPI_ERR_OTHER (16)
#define MPI_ERR_INTERN (17)
#define MPI_ERR_IN_STATUS (18)
#define MPI_ERR_PENDING (19)
#define MPI_ERR_NO_MEM (39)
#define MPI_ERR_WIN (53)
#define MPI_ERR_RMA_SYNC (50)
#define MPI_ERR_RMA_RANGE (55)
#define MPI_ERR_LASTCODE (92)
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_LIBRARY_VERSION_STRING (256)
#define MPI_MAX_PROCESSOR_NAME (256)
#define MPI_MAX_ERROR_STRING (256)
#define MPI_MAX_INFO_KEY (36)
#define MPI_MAX_INFO_VAL (256)
#define MPI_MAX_OBJECT_NAME (64)
#define MPI_MAX_PORT_NAME (1024)
#define MPI_THREAD_SINGLE (0)
#define MPI_THREAD_FUNNELED (1)
#define MPI_THREAD_SERIALIZED (2)
#define MPI_THREAD_MULTIPLE (3)
#define MPI_LOCK_EXCLUSIVE (1)
#define MPI_LOCK_SHARED (2)
#define MPI_MODE_NOCHECK (1)
#define MPI_MODE_NOPRECEDE (2)
#define MPI_MODE_NOPUT (4)
#define MPI_MODE_NOSTORE (8)
#define MPI_MODE_NOSUCCEED (16)
#define MPI_WIN_BASE (7)
#define MPI_WIN_SIZE (8)
#define MPI_WIN_DISP_UNIT (9)
#define MPI_WIN_CREATE_FLAVOR (10)
#define MPI_WIN_MODEL (11)
#define MPI_TAG_UB (0)
#define MPI_HOST (1)
#define MPI_IO (2)
#define MPI_WTIME_IS_GLOBAL (3)
#define MPI_UNIVERSE_SIZE (4)
#define MPI_WIN_UNIFIED (0)
#define MPI_WIN_SEPARATE (1)
#define MPI_WIN_FLAVOR_CREATE (1)
#define MPI_WIN_FLAVOR_ALLOCATE (2)
#define MPI_WIN_FLAVOR_DYNAMIC (3)
#define MPI_WIN_FLAVOR_SHARED (4)
#define MPI_ORDER_C (0)
#define MPI_ORDER_FORTRAN (1)
#define MPI_IDENT (0)
#define MPI_CONGRUENT (1)
#define MPI_SIMILAR (2)
#define MPI_UNEQUAL (3)
#define MPI_COMM_TYPE_SHARED (0)
#define MPI_COMBINER_NAMED (0)
#define MPI_BSEND_OVERHEAD (128)
#define MPI_KEYVAL_INVALID (-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRCODES_IGNORE ((int*)0)
#define MPI_ARGV_NULL ((char**)0)
#define MPI_UNWEIGHTED ((int*)2)
typedef struct MPI_Status_s { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _cancelled; size_t _ucount; } MPI_Status;
typedef void (MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef int (MPI_Comm_copy_attr_function)(MPI_Comm,int,void*,void*,void*,int*);
typedef int (MPI_Comm_delete_attr_function)(MPI_Comm,int,void*,void*);
typedef void (MPI_Comm_errhandler_function)(MPI_Comm*,int*,...);
#define MPI_COMM_NULL_COPY_FN ((MPI_Comm_copy_attr_function*)0)
#define MPI_NULL_COPY_FN ((MPI_Comm_copy_attr_function*)0)
#define MPI_COMM_NULL_DELETE_FN ((MPI_Comm_delete_attr_function*)0)
#define MPI_NULL_DELETE_FN ((MPI_Comm_delete_attr_function*)0)

int MPI_Init(int*,char***);
#define PMPI_Init MPI_Init
int MPI_Init_thread(int*,char***,int,int*);
#define PMPI_Init_thread MPI_Init_thread
int MPI_Initialized(int*);
#define PMPI_Initialized MPI_Initialized
int MPI_Finalized(int*);
#define PMPI_Finalized MPI_Finalized
int MPI_Finalize(void);
#define PMPI_Finalize MPI_Finalize
int MPI_Abort(MPI_Comm,int);
#define PMPI_Abort MPI_Abort
int MPI_Query_thread(int*);
#define PMPI_Query_thread MPI_Query_thread
int MPI_Is_thread_main(int*);
#define PMPI_Is_thread_main MPI_Is_thread_main
double MPI_Wtime(void);
#define PMPI_Wtime MPI_Wtime
double MPI_Wtick(void);
#define PMPI_Wtick MPI_Wtick
int MPI_Get_version(int*,int*);
#define PMPI_Get_version MPI_Get_version
int MPI_Get_library_version(char*,int*);
#define PMPI_Get_library_version MPI_Get_library_version
int MPI_Get_processor_name(char*,int*);
#define PMPI_Get_processor_name MPI_Get_processor_name
int MPI_Get_address(const void*,MPI_Aint*);
#define PMPI_Get_address MPI_Get_address
MPI_Aint MPI_Aint_add(MPI_Aint,MPI_Aint);
#define PMPI_Aint_add MPI_Aint_add
MPI_Aint MPI_Aint_diff(MPI_Aint,MPI_Aint);
#define PMPI_Aint_diff MPI_Aint_diff
int MPI_Error_string(int,char*,int*);
#define PMPI_Error_string MPI_Error_string
int MPI_Error_class(int,int*);
#define PMPI_Error_class MPI_Error_class
int MPI_Comm_rank(MPI_Comm,int*);
#define PMPI_Comm_rank MPI_Comm_rank
int MPI_Comm_size(MPI_Comm,int*);
#define PMPI_Comm_size MPI_Comm_size
int MPI_Comm_remote_size(MPI_Comm,int*);
#define PMPI_Comm_remote_size MPI_Comm_remote_size
int MPI_Comm_test_inter(MPI_Comm,int*);
#define PMPI_Comm_test_inter MPI_Comm_test_inter
int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
#define PMPI_Comm_compare MPI_Comm_compare
int MPI_Comm_group(MPI_Comm,MPI_Group*);
#define PMPI_Comm_group MPI_Comm_group
int MPI_Comm_remote_group(MPI_Comm,MPI_Group*);
#define PMPI_Comm_remote_group MPI_Comm_remote_group
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
#define PMPI_Comm_dup MPI_Comm_dup
int MPI_Comm_dup_with_info(MPI_Comm,MPI_Info,MPI_Comm*);
#define PMPI_Comm_dup_with_info MPI_Comm_dup_with_info
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*);
#define PMPI_Comm_create MPI_Comm_create
int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*);
#define PMPI_Comm_create_group MPI_Comm_create_group
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
#define PMPI_Comm_split MPI_Comm_split
int MPI_Comm_split_type(MPI_Comm,int,int,MPI_Info,MPI_Comm*);
#define PMPI_Comm_split_type MPI_Comm_split_type
int MPI_Comm_free(MPI_Comm*);
#define PMPI_Comm_free MPI_Comm_free
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler);
#define PMPI_Comm_set_errhandler MPI_Comm_set_errhandler
int MPI_Comm_get_errhandler(MPI_Comm,MPI_Errhandler*);
#define PMPI_Comm_get_errhandler MPI_Comm_get_errhandler
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*,MPI_Errhandler*);
#define PMPI_Comm_create_errhandler MPI_Comm_create_errhandler
int MPI_Errhandler_free(MPI_Errhandler*);
#define PMPI_Errhandler_free MPI_Errhandler_free
int MPI_Comm_set_name(MPI_Comm,const char*);
#define PMPI_Comm_set_name MPI_Comm_set_name
int MPI_Comm_get_name(MPI_Comm,char*,int*);
#define PMPI_Comm_get_name MPI_Comm_get_name
int MPI_Comm_set_info(MPI_Comm,MPI_Info);
#define PMPI_Comm_set_info MPI_Comm_set_info
int MPI_Comm_get_attr(MPI_Comm,int,void*,int*);
#define PMPI_Comm_get_attr MPI_Comm_get_attr
int MPI_Comm_set_attr(MPI_Comm,int,void*);
#define PMPI_Comm_set_attr MPI_Comm_set_attr
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*,MPI_Comm_delete_attr_function*,int*,void*);
#define PMPI_Comm_create_keyval MPI_Comm_create_keyval
int MPI_Comm_free_keyval(int*);
#define PMPI_Comm_free_keyval MPI_Comm_free_keyval
int MPI_Intercomm_create(MPI_Comm,int,MPI_Comm,int,int,MPI_Comm*);
#define PMPI_Intercomm_create MPI_Intercomm_create
int MPI_Intercomm_merge(MPI_Comm,int,MPI_Comm*);
#define PMPI_Intercomm_merge MPI_Intercomm_merge
int MPI_Group_size(MPI_Group,int*);
#define PMPI_Group_size MPI_Group_size
int MPI_Group_rank(MPI_Group,int*);
#define PMPI_Group_rank MPI_Group_rank
int MPI_Group_translate_ranks(MPI_Group,int,const int*,MPI_Group,int*);
#define PMPI_Group_translate_ranks MPI_Group_translate_ranks
int MPI_Group_compare(MPI_Group,MPI_Group,int*);
#define PMPI_Group_compare MPI_Group_compare
int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
#define PMPI_Group_incl MPI_Group_incl
int MPI_Group_excl(MPI_Group,int,const int*,MPI_Group*);
#define PMPI_Group_excl MPI_Group_excl
int MPI_Group_union(MPI_Group,MPI_Group,MPI_Group*);
#define PMPI_Group_union MPI_Group_union
int MPI_Group_intersection(MPI_Group,MPI_Group,MPI_Group*);
#define PMPI_Group_intersection MPI_Group_intersection
int MPI_Group_difference(MPI_Group,MPI_Group,MPI_Group*);
#define PMPI_Group_difference MPI_Group_difference
int MPI_Group_free(MPI_Group*);
#define PMPI_Group_free MPI_Group_free
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
#define PMPI_Send MPI_Send
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
#define PMPI_Ssend MPI_Ssend
int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
#define PMPI_Bsend MPI_Bsend
int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
#define PMPI_Rsend MPI_Rsend
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
#define PMPI_Isend MPI_Isend
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
#define PMPI_Issend MPI_Issend
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
#define PMPI_Recv MPI_Recv
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
#define PMPI_Irecv MPI_Irecv
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
#define PMPI_Sendrecv MPI_Sendrecv
int MPI_Probe(int,int,MPI_Comm,MPI_Status*);
#define PMPI_Probe MPI_Probe
int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
#define PMPI_Iprobe MPI_Iprobe
int MPI_Mprobe(int,int,MPI_Comm,MPI_Message*,MPI_Status*);
#define PMPI_Mprobe MPI_Mprobe
int MPI_Improbe(int,int,MPI_Comm,int*,MPI_Message*,MPI_Status*);
#define PMPI_Improbe MPI_Improbe
int MPI_Mrecv(void*,int,MPI_Datatype,MPI_Message*,MPI_Status*);
#define PMPI_Mrecv MPI_Mrecv
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
#define PMPI_Get_count MPI_Get_count
int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
#define PMPI_Get_elements MPI_Get_elements
int MPI_Wait(MPI_Request*,MPI_Status*);
#define PMPI_Wait MPI_Wait
int MPI_Test(MPI_Request*,int*,MPI_Status*);
#define PMPI_Test MPI_Test
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
#define PMPI_Waitall MPI_Waitall
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
#define PMPI_Testall MPI_Testall
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
#define PMPI_Waitany MPI_Waitany
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
#define PMPI_Testany MPI_Testany
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
#define PMPI_Waitsome MPI_Waitsome
int MPI_Testsome(int,MPI_Request*,int*,int*,MPI_Status*);
#define PMPI_Testsome MPI_Testsome
int MPI_Request_free(MPI_Request*);
#define PMPI_Request_free MPI_Request_free
int MPI_Request_get_status(MPI_Request,int*,MPI_Status*);
#define PMPI_Request_get_status MPI_Request_get_status
int MPI_Cancel(MPI_Request*);
#define PMPI_Cancel MPI_Cancel
int MPI_Test_cancelled(const MPI_Status*,int*);
#define PMPI_Test_cancelled MPI_Test_cancelled
int MPI_Barrier(MPI_Comm);
#define PMPI_Barrier MPI_Barrier
int MPI_Ibarrier(MPI_Comm,MPI_Request*);
#define PMPI_Ibarrier MPI_Ibarrier
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
#define PMPI_Bcast MPI_Bcast
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
#define PMPI_Reduce MPI_Reduce
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
#define PMPI_Allreduce MPI_Allreduce
int MPI_Reduce_local(const void*,void*,int,MPI_Datatype,MPI_Op);
#define PMPI_Reduce_local MPI_Reduce_local
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
#define PMPI_Scan MPI_Scan
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
#define PMPI_Exscan MPI_Exscan
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
#define PMPI_Gather MPI_Gather
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
#define PMPI_Gatherv MPI_Gatherv
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
#define PMPI_Allgather MPI_Allgather
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
#define PMPI_Allgatherv MPI_Allgatherv
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
#define PMPI_Scatter MPI_Scatter
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
#define PMPI_Alltoall MPI_Alltoall
int MPI_Op_create(MPI_User_function*,int,MPI_Op*);
#define PMPI_Op_create MPI_Op_create
int MPI_Op_free(MPI_Op*);
#define PMPI_Op_free MPI_Op_free
int MPI_Op_commutative(MPI_Op,int*);
#define PMPI_Op_commutative MPI_Op_commutative
int MPI_Type_size(MPI_Datatype,int*);
#define PMPI_Type_size MPI_Type_size
int MPI_Type_size_x(MPI_Datatype,MPI_Count*);
#define PMPI_Type_size_x MPI_Type_size_x
int MPI_Type_get_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*);
#define PMPI_Type_get_extent MPI_Type_get_extent
int MPI_Type_get_true_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*);
#define PMPI_Type_get_true_extent MPI_Type_get_true_extent
int MPI_Type_commit(MPI_Datatype*);
#define PMPI_Type_commit MPI_Type_commit
int MPI_Type_free(MPI_Datatype*);
#define PMPI_Type_free MPI_Type_free
int MPI_Type_dup(MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_dup MPI_Type_dup
int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_contiguous MPI_Type_contiguous
int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_vector MPI_Type_vector
int MPI_Type_create_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_create_hvector MPI_Type_create_hvector
int MPI_Type_indexed(int,const int*,const int*,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_indexed MPI_Type_indexed
int MPI_Type_create_hindexed(int,const int*,const MPI_Aint*,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_create_hindexed MPI_Type_create_hindexed
int MPI_Type_create_indexed_block(int,int,const int*,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_create_indexed_block MPI_Type_create_indexed_block
int MPI_Type_create_hindexed_block(int,int,const MPI_Aint*,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_create_hindexed_block MPI_Type_create_hindexed_block
int MPI_Type_create_struct(int,const int*,const MPI_Aint*,const MPI_Datatype*,MPI_Datatype*);
#define PMPI_Type_create_struct MPI_Type_create_struct
int MPI_Type_create_subarray(int,const int*,const int*,const int*,int,MPI_Datatype,MPI_Datatype*);
#define PMPI_Type_create_subarray MPI_Type_create_subarray
int MPI_Type_create_resized(MPI_Datatype,MPI_Aint,MPI_Aint,MPI_Datatype*);
#define PMPI_Type_create_resized MPI_Type_create_resized
int MPI_Pack(const void*,int,MPI_Datatype,void*,int,int*,MPI_Comm);
#define PMPI_Pack MPI_Pack
int MPI_Unpack(const void*,int,int*,void*,int,MPI_Datatype,MPI_Comm);
#define PMPI_Unpack MPI_Unpack
int MPI_Pack_size(int,MPI_Datatype,MPI_Comm,int*);
#define PMPI_Pack_size MPI_Pack_size
int MPI_Info_create(MPI_Info*);
#define PMPI_Info_create MPI_Info_create
int MPI_Info_free(MPI_Info*);
#define PMPI_Info_free MPI_Info_free
int MPI_Info_set(MPI_Info,const char*,const char*);
#define PMPI_Info_set MPI_Info_set
int MPI_Info_get(MPI_Info,const char*,int,char*,int*);
#define PMPI_Info_get MPI_Info_get
int MPI_Info_dup(MPI_Info,MPI_Info*);
#define PMPI_Info_dup MPI_Info_dup
int MPI_Info_delete(MPI_Info,const char*);
#define PMPI_Info_delete MPI_Info_delete
int MPI_Group_range_incl(MPI_Group,int,int[][3],MPI_Group*);
#define PMPI_Group_range_incl MPI_Group_range_incl
int MPI_Group_range_excl(MPI_Group,int,int[][3],MPI_Group*);
#define PMPI_Group_range_excl MPI_Group_range_excl
int MPI_Type_get_extent_x(MPI_Datatype,MPI_Count*,MPI_Count*);
#define PMPI_Type_get_extent_x MPI_Type_get_extent_x
int MPI_Type_get_true_extent_x(MPI_Datatype,MPI_Count*,MPI_Count*);
#define PMPI_Type_get_true_extent_x MPI_Type_get_true_extent_x
int MPI_Imrecv(void*,int,MPI_Datatype,MPI_Message*,MPI_Request*);
#define PMPI_Imrecv MPI_Imrecv
int MPI_Ibcast(void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
#define PMPI_Ibcast MPI_Ibcast
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*);
#define PMPI_Iallreduce MPI_Iallreduce
int MPI_Ireduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm,MPI_Request*);
#define PMPI_Ireduce MPI_Ireduce
int MPI_Iallgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm,MPI_Request*);
#define PMPI_Iallgather MPI_Iallgather
int MPI_Igather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
#define PMPI_Igather MPI_Igather
int MPI_Comm_idup(MPI_Comm,MPI_Comm*,MPI_Request*);
#define PMPI_Comm_idup MPI_Comm_idup
int MPI_Info_get_nthkey(MPI_Info,int,char*);
#define PMPI_Info_get_nthkey MPI_Info_get_nthkey
int MPI_Info_get_valuelen(MPI_Info,const char*,int*,int*);
#define PMPI_Info_get_valuelen MPI_Info_get_valuelen
int MPI_Info_get_nkeys(MPI_Info,int*);
#define PMPI_Info_get_nkeys MPI_Info_get_nkeys
int MPI_Alloc_mem(MPI_Aint,MPI_Info,void*);
#define PMPI_Alloc_mem MPI_Alloc_mem
int MPI_Free_mem(void*);
#define PMPI_Free_mem MPI_Free_mem
int MPI_Win_create(void*,MPI_Aint,int,MPI_Info,MPI_Comm,MPI_Win*);
#define PMPI_Win_create MPI_Win_create
int MPI_Win_allocate(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*);
#define PMPI_Win_allocate MPI_Win_allocate
int MPI_Win_allocate_shared(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*);
#define PMPI_Win_allocate_shared MPI_Win_allocate_shared
int MPI_Win_shared_query(MPI_Win,int,MPI_Aint*,int*,void*);
#define PMPI_Win_shared_query MPI_Win_shared_query
int MPI_Win_free(MPI_Win*);
#define PMPI_Win_free MPI_Win_free
int MPI_Win_get_group(MPI_Win,MPI_Group*);
#define PMPI_Win_get_group MPI_Win_get_group
int MPI_Win_get_attr(MPI_Win,int,void*,int*);
#define PMPI_Win_get_attr MPI_Win_get_attr
int MPI_Win_set_info(MPI_Win,MPI_Info);
#define PMPI_Win_set_info MPI_Win_set_info
int MPI_Win_get_info(MPI_Win,MPI_Info*);
#define PMPI_Win_get_info MPI_Win_get_info
int MPI_Win_set_errhandler(MPI_Win,MPI_Errhandler);
#define PMPI_Win_set_errhandler MPI_Win_set_errhandler
int MPI_Win_set_name(MPI_Win,const char*);
#define PMPI_Win_set_name MPI_Win_set_name
int MPI_Win_fence(int,MPI_Win);
#define PMPI_Win_fence MPI_Win_fence
int MPI_Win_lock(int,int,int,MPI_Win);
#define PMPI_Win_lock MPI_Win_lock
int MPI_Win_unlock(int,MPI_Win);
#define PMPI_Win_unlock MPI_Win_unlock
int MPI_Win_lock_all(int,MPI_Win);
#define PMPI_Win_lock_all MPI_Win_lock_all
int MPI_Win_unlock_all(MPI_Win);
#define PMPI_Win_unlock_all MPI_Win_unlock_all
int MPI_Win_flush(int,MPI_Win);
#define PMPI_Win_flush MPI_Win_flush
int MPI_Win_flush_all(MPI_Win);
#define PMPI_Win_flush_all MPI_Win_flush_all
int MPI_Win_flush_local(int,MPI_Win);
#define PMPI_Win_flush_local MPI_Win_flush_local
int MPI_Win_flush_local_all(MPI_Win);
#define PMPI_Win_flush_local_all MPI_Win_flush_local_all
int MPI_Win_sync(MPI_Win);
#define PMPI_Win_sync MPI_Win_sync
int MPI_Put(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
#define PMPI_Put MPI_Put
int MPI_Get(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
#define PMPI_Get MPI_Get
int MPI_Accumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
#define PMPI_Accumulate MPI_Accumulate
int MPI_Get_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
#define PMPI_Get_accumulate MPI_Get_accumulate
int MPI_Fetch_and_op(const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Op,MPI_Win);
#define PMPI_Fetch_and_op MPI_Fetch_and_op
int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win);
#define PMPI_Compare_and_swap MPI_Compare_and_swap
int MPI_Rput(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
#define PMPI_Rput MPI_Rput
int MPI_Rget(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
#define PMPI_Rget MPI_Rget
int MPI_Raccumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
#define PMPI_Raccumulate MPI_Raccumulate
int MPI_Rget_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
#define PMPI_Rget_accumulate MPI_Rget_accumulate
int MPI_Pcontrol(const int,...);
#define PMPI_Pcontrol MPI_Pcontrol
#ifdef __cplusplus
}
#endif
#endif
