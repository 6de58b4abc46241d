/* Model of the Matlab/Octave gateway interface (see ../mexb.c). */
#ifndef VP_MEX_H
#define VP_MEX_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef enum { mxUNKNOWN_CLASS, mxSTRUCT_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxINT32_CLASS, mxSINGLE_CLASS } mxClassID;
typedef struct mxArray_tag mxArray;
struct mxArray_tag { mxClassID cls; size_t m, n, third; double* pr; int nf; const char* fname[20]; mxArray* fval[20]; const char* str; };
size_t mxGetM(const mxArray*);
size_t mxGetN(const mxArray*);
size_t mxGetNumberOfElements(const mxArray*);
mwSize mxGetNumberOfDimensions(const mxArray*);
double* mxGetPr(const mxArray*);
double* mxGetDoubles(const mxArray*);
void* mxGetData(const mxArray*);
int32_t* mxGetInt32s(const mxArray*);
double mxGetScalar(const mxArray*);
mxClassID mxGetClassID(const mxArray*);
bool mxIsDouble(const mxArray*);
bool mxIsInt32(const mxArray*);
bool mxIsStruct(const mxArray*);
bool mxIsChar(const mxArray*);
bool mxIsScalar(const mxArray*);
bool mxIsEmpty(const mxArray*);
bool mxIsNumeric(const mxArray*);
bool mxIsComplex(const mxArray*);
mxArray* mxGetField(const mxArray*, mwIndex, const char*);
void mxSetField(mxArray*, mwIndex, const char*, mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray* mxCreateDoubleScalar(double);
mxArray* mxCreateStructMatrix(mwSize, mwSize, int, const char**);
void mxDestroyArray(mxArray*);
_Noreturn void mexErrMsgIdAndTxt(const char*, const char*, ...);
_Noreturn void mexErrMsgTxt(const char*);
int mexPrintf(const char*, ...);
#endif
