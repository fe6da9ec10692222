/* Stand-in for the part of PETSc that the interface of the library uses: solver objects are plain records, options are a
 * table filled by the harness, and every array handed out is accounted for. */
#ifndef MOCK_PETSCKSP_H
#define MOCK_PETSCKSP_H
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscErrorCode; typedef int PetscInt; typedef int PetscMPIInt; typedef double PetscReal; typedef double PetscScalar; typedef double MatScalar;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef int MPI_Comm;
typedef struct _p_PetscObject *PetscObject; typedef struct _p_PC *PC; typedef struct _p_KSP *KSP; typedef struct _p_Mat *Mat; typedef struct _p_Vec *Vec; typedef struct _n_PetscOptions *PetscOptions;
typedef const char *PCType; typedef const char *MatType; typedef const char *KSPType;
typedef enum { PCRICHARDSON_CONVERGED_RTOL = 2, PCRICHARDSON_CONVERGED_ATOL = 3, PCRICHARDSON_CONVERGED_ITS = 4, PCRICHARDSON_DIVERGED_DTOL = -4 } PCRichardsonConvergedReason;
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define PETSC_ERR_SUP 56
#define PETSC_ERR_ARG_SIZ 60
#define PETSC_ERR_ARG_WRONG 62
#define PETSC_ERR_LIB 76
#define PETSC_ERR_ARG_WRONGSTATE 73
#define PETSC_ERR_USER 83
#define PETSC_ERR_ARG_OUTOFRANGE 63
#define PETSC_ERR_ARG_INCOMP 75
#define CHKERRQ(e) do { int e__=(int)(e); if(e__) return e__; } while(0)
#define PetscCall(e) CHKERRQ(e)
#define PetscFunctionBegin
#define PetscFunctionReturn(x) return (x)
PetscErrorCode MockError(int code,const char*msg,...);
#define SETERRQ(c,n,...) return MockError((n),__VA_ARGS__)
#define SETERRQ1(c,n,...) return MockError((n),__VA_ARGS__)
#define SETERRQ2(c,n,...) return MockError((n),__VA_ARGS__)
#define SETERRQ3(c,n,...) return MockError((n),__VA_ARGS__)
#define PetscCheck(cond,c,n,...) do { if(!(cond)) return MockError((n),__VA_ARGS__); } while(0)
#define PetscMax(a,b) ((a)<(b)?(b):(a))
#define PetscMin(a,b) ((a)<(b)?(a):(b))
#define PETSC_NULL 0
#define PCBJACOBI "bjacobi"
#define PCASM "asm"
#define PCGASM "gasm"
#define PCSHELL "shell"
#define PCMG "mg"
#define PCGAMG "gamg"
#define PCKSP "ksp"
#define PCNONE "none"
#define PCLU "lu"
#define MATAIJ "aij"
#define MATSEQAIJ "seqaij"
#define MATMPIAIJ "mpiaij"
#define MATAIJMKL "aijmkl"
#define MATSEQAIJMKL "seqaijmkl"
#define MATMPIAIJMKL "mpiaijmkl"
#define MATBAIJ "baij"
#define MATSEQBAIJ "seqbaij"
#define MATMPIBAIJ "mpibaij"
#define MATBAIJMKL "baijmkl"
#define MATSEQBAIJMKL "seqbaijmkl"
#define MATMPIBAIJMKL "mpibaijmkl"
int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Barrier(MPI_Comm);
PetscErrorCode PetscPrintf(MPI_Comm,const char*,...);
PetscErrorCode PetscObjectTypeCompare(PetscObject,const char*,PetscBool*);
PetscErrorCode PetscObjectGetComm(PetscObject,MPI_Comm*);
PetscErrorCode PetscOptionsGetInt(PetscOptions,const char*,const char*,PetscInt*,PetscBool*);
PetscErrorCode PetscOptionsGetReal(PetscOptions,const char*,const char*,PetscReal*,PetscBool*);
PetscErrorCode PetscOptionsGetBool(PetscOptions,const char*,const char*,PetscBool*,PetscBool*);
PetscErrorCode PetscOptionsGetString(PetscOptions,const char*,const char*,char*,unsigned long,PetscBool*);
PetscErrorCode PetscOptionsGetIntArray(PetscOptions,const char*,const char*,PetscInt*,PetscInt*,PetscBool*);
PetscErrorCode PetscOptionsHasName(PetscOptions,const char*,const char*,PetscBool*);
PetscErrorCode KSPGetPC(KSP,PC*); PetscErrorCode KSPSetUp(KSP); PetscErrorCode KSPGetOperators(KSP,Mat*,Mat*);
PetscErrorCode PCSetUp(PC); PetscErrorCode PCGetOperators(PC,Mat*,Mat*); PetscErrorCode PCGetType(PC,PCType*);
PetscErrorCode PCBJacobiGetSubKSP(PC,PetscInt*,PetscInt*,KSP**); PetscErrorCode PCASMGetSubKSP(PC,PetscInt*,PetscInt*,KSP**);
PetscErrorCode PCMGGetLevels(PC,PetscInt*); PetscErrorCode PCMGGetSmoother(PC,PetscInt,KSP*); PetscErrorCode PCMGGetSmootherUp(PC,PetscInt,KSP*); PetscErrorCode PCMGGetSmootherDown(PC,PetscInt,KSP*); PetscErrorCode PCMGGetCoarseSolve(PC,KSP*);
PetscErrorCode PCKSPGetKSP(PC,KSP*);
PetscErrorCode PCShellSetContext(PC,void*); PetscErrorCode PCShellGetContext(PC,void*); PetscErrorCode PCShellSetName(PC,const char*); PetscErrorCode PCShellGetName(PC,const char**);
PetscErrorCode PCShellSetSetUp(PC,PetscErrorCode(*)(PC)); PetscErrorCode PCShellSetApply(PC,PetscErrorCode(*)(PC,Vec,Vec)); PetscErrorCode PCShellSetDestroy(PC,PetscErrorCode(*)(PC));
PetscErrorCode PCShellSetApplyRichardson(PC,PetscErrorCode(*)(PC,Vec,Vec,Vec,PetscReal,PetscReal,PetscReal,PetscInt,PetscBool,PetscInt*,PCRichardsonConvergedReason*));
PetscErrorCode MatGetOwnershipRange(Mat,PetscInt*,PetscInt*); PetscErrorCode MatGetLocalSize(Mat,PetscInt*,PetscInt*); PetscErrorCode MatGetSize(Mat,PetscInt*,PetscInt*); PetscErrorCode MatGetBlockSize(Mat,PetscInt*); PetscErrorCode MatGetType(Mat,MatType*); PetscErrorCode MatMissingDiagonal(Mat,PetscBool*,PetscInt*);
PetscErrorCode VecGetOwnershipRange(Vec,PetscInt*,PetscInt*); PetscErrorCode VecGetLocalSize(Vec,PetscInt*); PetscErrorCode VecGetSize(Vec,PetscInt*); PetscErrorCode VecSet(Vec,PetscScalar);
PetscErrorCode VecGetArray(Vec,PetscScalar**); PetscErrorCode VecRestoreArray(Vec,PetscScalar**); PetscErrorCode VecGetArrayRead(Vec,const PetscScalar**); PetscErrorCode VecRestoreArrayRead(Vec,const PetscScalar**);
/* creation of matrices and vectors from files */
typedef enum { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES } InsertMode; typedef enum { MAT_FLUSH_ASSEMBLY=1, MAT_FINAL_ASSEMBLY=0 } MatAssemblyType;
typedef enum { MAT_ROW_ORIENTED=0, MAT_NEW_NONZERO_LOCATIONS=1, MAT_NEW_NONZERO_ALLOCATION_ERR=2, MAT_IGNORE_ZERO_ENTRIES=3, MAT_KEEP_NONZERO_PATTERN=4, MAT_NEW_NONZERO_LOCATION_ERR=5 } MatOption;
#define PETSC_DECIDE -1
#define PETSC_DETERMINE -1
#define PETSC_DEFAULT -2
#define PETSC_ERR_MIN_VALUE 54
#define PETSC_ERR_MAX_VALUE 101
PetscErrorCode PetscErrorMessage(int,const char**,char**);
PetscErrorCode MatCreate(MPI_Comm,Mat*); PetscErrorCode MatSetFromOptions(Mat); PetscErrorCode MatSetType(Mat,MatType); PetscErrorCode MatSetSizes(Mat,PetscInt,PetscInt,PetscInt,PetscInt); PetscErrorCode MatSetUp(Mat); PetscErrorCode MatSetBlockSize(Mat,PetscInt); PetscErrorCode MatSetOption(Mat,MatOption,PetscBool); PetscErrorCode MatDestroy(Mat*);
PetscErrorCode MatSeqAIJSetPreallocation(Mat,PetscInt,const PetscInt*); PetscErrorCode MatSeqBAIJSetPreallocation(Mat,PetscInt,PetscInt,const PetscInt*);
PetscErrorCode MatSetValues(Mat,PetscInt,const PetscInt*,PetscInt,const PetscInt*,const PetscScalar*,InsertMode); PetscErrorCode MatSetValuesBlocked(Mat,PetscInt,const PetscInt*,PetscInt,const PetscInt*,const PetscScalar*,InsertMode); PetscErrorCode MatSetValue(Mat,PetscInt,PetscInt,PetscScalar,InsertMode);
PetscErrorCode MatAssemblyBegin(Mat,MatAssemblyType); PetscErrorCode MatAssemblyEnd(Mat,MatAssemblyType);
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm,PetscInt,PetscInt,PetscInt,PetscInt,const PetscInt*,const PetscInt*,const PetscScalar*,Mat*);
PetscErrorCode MatCreateVecs(Mat,Vec*,Vec*); PetscErrorCode VecCreate(MPI_Comm,Vec*); PetscErrorCode VecSetSizes(Vec,PetscInt,PetscInt); PetscErrorCode VecSetUp(Vec); PetscErrorCode VecSetFromOptions(Vec); PetscErrorCode VecSetValues(Vec,PetscInt,const PetscInt*,const PetscScalar*,InsertMode); PetscErrorCode VecSetValue(Vec,PetscInt,PetscScalar,InsertMode); PetscErrorCode VecAssemblyBegin(Vec); PetscErrorCode VecAssemblyEnd(Vec); PetscErrorCode VecDestroy(Vec*);
/* programs that write files */
#define PETSC_MAX_PATH_LEN 4096
#define PETSC_ERR_FILE_OPEN 65
typedef struct _p_PetscViewer *PetscViewer; typedef enum { FILE_MODE_UNDEFINED=-1, FILE_MODE_READ=0, FILE_MODE_WRITE=1, FILE_MODE_APPEND=2, FILE_MODE_UPDATE=3, FILE_MODE_APPEND_UPDATE=4 } PetscFileMode; typedef const char *PetscViewerType;
#define PETSCVIEWERBINARY "binary"
PetscErrorCode PetscInitialize(int*,char***,const char*,const char*); PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscViewerBinaryOpen(MPI_Comm,const char*,PetscFileMode,PetscViewer*); PetscErrorCode PetscViewerCreate(MPI_Comm,PetscViewer*); PetscErrorCode PetscViewerSetType(PetscViewer,PetscViewerType); PetscErrorCode PetscViewerFileSetMode(PetscViewer,PetscFileMode); PetscErrorCode PetscViewerFileSetName(PetscViewer,const char*);
PetscErrorCode PetscViewerFlush(PetscViewer); PetscErrorCode PetscViewerDestroy(PetscViewer*); PetscErrorCode MatView(Mat,PetscViewer); PetscErrorCode VecView(Vec,PetscViewer);
#ifdef __cplusplus
}
#endif
#endif
