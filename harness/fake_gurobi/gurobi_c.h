/* Stand-in for Gurobi's C interface: what trajopt_sco/src/gurobi_interface.cpp uses of it. Implemented in S14.cpp. */
#ifndef FAKE_GUROBI_C_H
#define FAKE_GUROBI_C_H
typedef struct _GRBenv GRBenv;
struct _GRBmodel;
typedef struct _GRBmodel GRBmodel;
#define GRB_INFINITY 1e100
#define GRB_CONTINUOUS 'C'
#define GRB_BINARY 'B'
#define GRB_INTEGER 'I'
#define GRB_LESS_EQUAL '<'
#define GRB_GREATER_EQUAL '>'
#define GRB_EQUAL '='
#define GRB_DBL_ATTR_LB "LB"
#define GRB_DBL_ATTR_UB "UB"
#define GRB_DBL_ATTR_OBJ "Obj"
#define GRB_DBL_ATTR_OBJCON "ObjCon"
#define GRB_DBL_ATTR_RHS "RHS"
#define GRB_DBL_ATTR_X "X"
#define GRB_DBL_ATTR_OBJVAL "ObjVal"
#define GRB_INT_ATTR_STATUS "Status"
#define GRB_INT_ATTR_NUMVARS "NumVars"
#define GRB_INT_ATTR_NUMCONSTRS "NumConstrs"
#define GRB_INT_PAR_OUTPUTFLAG "OutputFlag"
#define GRB_LOADED 1
#define GRB_OPTIMAL 2
#define GRB_INFEASIBLE 3
#define GRB_INF_OR_UNBD 4
#define GRB_UNBOUNDED 5
#define GRB_CUTOFF 6
#define GRB_ITERATION_LIMIT 7
#define GRB_NODE_LIMIT 8
#define GRB_TIME_LIMIT 9
#define GRB_SOLUTION_LIMIT 10
#define GRB_INTERRUPTED 11
#define GRB_NUMERIC 12
#define GRB_SUBOPTIMAL 13
int GRBloadenv(GRBenv** env, const char* log);
int GRBsetintparam(GRBenv* env, const char* name, int value);
int GRBnewmodel(GRBenv* env, GRBmodel** model, const char* name, int n, double* obj, double* lb, double* ub, char* vtype, char** names);
int GRBfreemodel(GRBmodel*);
int GRBaddvar(GRBmodel*, int nnz, int* ind, double* val, double obj, double lb, double ub, char vtype, const char* name);
int GRBaddconstr(GRBmodel*, int nnz, int* ind, double* val, char sense, double rhs, const char* name);
int GRBaddqconstr(GRBmodel*, int nl, int* li, double* lv, int nq, int* q1, int* q2, double* qv, char sense, double rhs, const char* name);
int GRBdelvars(GRBmodel*, int n, int* ind);
int GRBdelconstrs(GRBmodel*, int n, int* ind);
int GRBsetdblattrlist(GRBmodel*, const char* a, int n, int* ind, double* val);
int GRBgetdblattrlist(GRBmodel*, const char* a, int n, int* ind, double* val);
int GRBsetdblattrarray(GRBmodel*, const char* a, int first, int n, double* val);
int GRBgetdblattrarray(GRBmodel*, const char* a, int first, int n, double* val);
int GRBsetdblattrelement(GRBmodel*, const char* a, int i, double val);
int GRBgetdblattrelement(GRBmodel*, const char* a, int i, double* val);
int GRBsetdblattr(GRBmodel*, const char* a, double val);
int GRBgetdblattr(GRBmodel*, const char* a, double* val);
int GRBgetintattr(GRBmodel*, const char* a, int* val);
int GRBdelq(GRBmodel*);
int GRBaddqpterms(GRBmodel*, int n, int* i, int* j, double* val);
int GRBupdatemodel(GRBmodel*);
int GRBoptimize(GRBmodel*);
int GRBcomputeIIS(GRBmodel*);
int GRBfeasrelax(GRBmodel*, int type, int minrelax, double* lbpen, double* ubpen, double* rhspen, double* obj);
int GRBwrite(GRBmodel*, const char* file);
const char* GRBgeterrormsg(GRBenv*);
#endif
