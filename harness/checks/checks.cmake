check(C01)
check(C02 LIBS rp_ifopt rp_common console_bridge)
check(I03 LIBS rp_ifopt rp_common console_bridge)
check(Q01 LIBS ${SQP})
check(Q02 LIBS ${SQP})
check(Q03 LIBS ${SQP})
check(Q04 LIBS ${SQP})
check(Q05 LIBS ${SQP})
check(Q07 LIBS ${SQP})
check(Q06 LIBS ${SQP})
check(Q09 LIBS ${SQP})
check(Q08 LIBS ${SQP})
check(I01 LIBS ${IFOPT})
check(I02 LIBS ${IFOPT})
check(I04 LIBS ${IFOPT})
check(I05 LIBS ${IFOPT})
check(I06 LIBS ${IFOPT})
check(C03 LIBS rp_collision rp_ifopt rp_common console_bridge)
check(I07 LIBS rp_collision rp_ifopt rp_common console_bridge)
check(S01 LIBS ${SCO})
check(S02 LIBS ${SCO})
foreach(set RANGE 15)
  add_library(S10_${set} OBJECT EXCLUDE_FROM_ALL checks/S10_variant.cpp)
  target_compile_definitions(S10_${set} PRIVATE SET=${set} SOURCE="${REPO}/trajopt_sco/src/solver_interface.cpp")
  target_compile_options(S10_${set} PRIVATE ${SAN})
  list(APPEND S10_OBJ $<TARGET_OBJECTS:S10_${set}>)
endforeach()
check(S10 LIBS rp_common jsoncpp SRC checks/S10.cpp ${S10_OBJ})
# the solver program's main loop and the model wrapper in one process (common/wire.hpp)
add_library(wire STATIC EXCLUDE_FROM_ALL common/wire.cpp common/wire_caller.cpp)
target_compile_definitions(wire PRIVATE WIRE_CALLER_SOURCE="${REPO}/trajopt_sco/src/bpmpd_caller.cpp" BPMPD_WORKING_DIR="/")
target_compile_options(wire PRIVATE ${SAN})
set(WIRE wire ${SCO} -Wl,--wrap=pipe,--wrap=fork,--wrap=read,--wrap=write,--wrap=close,--wrap=chdir,--wrap=kill,--wrap=waitpid,--wrap=exit)
check(S03 LIBS ${WIRE})
check(S05 LIBS ${WIRE})
check(S08 LIBS ${WIRE})
check(S09 LIBS ${WIRE})
check(S07 LIBS ${WIRE})
check(S11 LIBS rp_optimizers ${SCO})
# real processes: the solver program around a stand-in routine that stops where it is told to
add_executable(s12_peer EXCLUDE_FROM_ALL checks/S12_peer.cpp)
add_library(s12_caller OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_sco/src/bpmpd_caller.cpp)
target_compile_definitions(s12_caller PRIVATE BPMPD_WORKING_DIR="/")
target_link_libraries(s12_peer PRIVATE $<TARGET_OBJECTS:s12_caller> -static -Wl,--wrap=read,--wrap=write)
add_library(s12_model OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_sco/src/bpmpd_interface.cpp)
target_compile_definitions(s12_model PRIVATE HAVE_BPMPD=ON "BPMPD_CALLER=\"exec $S12_PEER\"")
target_compile_options(s12_model PRIVATE ${SAN})
check(S12 LIBS $<TARGET_OBJECTS:s12_model> ${SCO} -Wl,--wrap=fork DEFS S12_PEER_PATH="${CMAKE_BINARY_DIR}/bin/s12_peer")
add_dependencies(S12 s12_peer)
check(S06 LIBS ${SCO})
add_dependencies(S06 bpmpd_caller)
check(T03 LIBS rp_json rp_common jsoncpp)
check(T04 LIBS rp_collision rp_common console_bridge yaml-cpp)
check(T01 LIBS rp_trajopt ${WIRE})
check(T02 LIBS rp_trajopt ${WIRE})
# the OSQP back end with a stand-in library
add_library(s04_osqp OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_sco/src/osqp_interface.cpp)
target_include_directories(s04_osqp BEFORE PRIVATE ${VERIF}/harness/fake_osqp)
target_compile_options(s04_osqp PRIVATE ${SAN})
check(S04 LIBS $<TARGET_OBJECTS:s04_osqp> ${SCO})
target_include_directories(S04 BEFORE PRIVATE ${VERIF}/harness/fake_osqp)
# the background decomposition under the controlled scheduler (sched/): threads, mutexes and atomics replaced, every
# plain access reported
add_library(v01_async OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp)
target_compile_options(v01_async PRIVATE -fsanitize=thread -include ${VERIF}/harness/sched/shim.hpp)
check(V01 LIBS $<TARGET_OBJECTS:v01_async> SRC checks/V01.cpp sched/sched.cpp)
check(V02 LIBS rp_vhacd)
check(V03 LIBS rp_vhacd)
check(V04 LIBS rp_vhacd)
# the OsqpEigen library is a stand-in; its directory is only visible to this target
check(Q10 LIBS ${SQP} SRC checks/Q10.cpp ${REPO}/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp)
target_include_directories(Q10 PRIVATE fake_osqp_eigen fake_osqp)
check(Q11 LIBS ${SQP} SRC checks/Q11.cpp ${REPO}/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp)
target_include_directories(Q11 PRIVATE fake_osqp_eigen fake_osqp)
# the qpOASES and Gurobi back ends with stand-in libraries
add_library(s13_qpoases OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_sco/src/qpoases_interface.cpp)
target_include_directories(s13_qpoases BEFORE PRIVATE ${VERIF}/harness/fake_qpoases)
target_compile_options(s13_qpoases PRIVATE ${SAN})
check(S13 LIBS $<TARGET_OBJECTS:s13_qpoases> ${SCO})
target_include_directories(S13 BEFORE PRIVATE ${VERIF}/harness/fake_qpoases)
add_library(s14_gurobi OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt_sco/src/gurobi_interface.cpp)
target_include_directories(s14_gurobi BEFORE PRIVATE ${VERIF}/harness/fake_gurobi)
target_compile_options(s14_gurobi PRIVATE ${SAN})
check(S14 LIBS $<TARGET_OBJECTS:s14_gurobi> ${SCO})
target_include_directories(S14 BEFORE PRIVATE ${VERIF}/harness/fake_gurobi)
check(K01 LIBS rp_kin ${IFOPT} ${SCO})
check(K02 LIBS rp_kin ${IFOPT} ${SCO})
# asserts off, as in a release build: nothing the terms need may be done inside an assert
add_library(k03_terms OBJECT EXCLUDE_FROM_ALL ${REPO}/trajopt/src/kinematic_terms.cpp ${REPO}/trajopt/src/utils.cpp)
target_compile_options(k03_terms PRIVATE ${SAN})
target_compile_definitions(k03_terms PRIVATE NDEBUG)
check(K03 LIBS $<TARGET_OBJECTS:k03_terms> rp_kin ${IFOPT} ${SCO})
check(P01 LIBS rp_problem rp_optimizers rp_ifopt ${WIRE} rp_common console_bridge)
check(P02 LIBS rp_problem rp_optimizers rp_ifopt ${WIRE} rp_common console_bridge)
check(P03 LIBS rp_problem rp_optimizers rp_ifopt ${WIRE} rp_common console_bridge)
check(P04 LIBS rp_problem rp_optimizers rp_ifopt ${WIRE} rp_common console_bridge)
check(P05 LIBS rp_problem rp_optimizers rp_ifopt ${WIRE} rp_common console_bridge)
check(P06 LIBS rp_problem rp_callbacks rp_optimizers rp_sqp rp_ifopt ${WIRE} rp_common console_bridge)
