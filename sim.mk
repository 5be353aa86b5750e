# Objects of /repo's sources are instrumented (-fsanitize=thread calls land in sim/rt.cpp), harness code is not.
MAKEFLAGS += -r
REPO ?= /repo
B := build
BINS := store core dist
CXX := g++
WRAPS := pthread_create pthread_join pthread_detach pthread_once pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock \
 pthread_mutex_init pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal \
 pthread_cond_broadcast pthread_cond_init pthread_cond_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock \
 __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield clock_gettime gettimeofday time nanosleep clock_nanosleep \
 usleep sleep getenv _ZNSt13random_device9_M_getvalEv signal sigaction memcpy memmove memset memcmp \
 socket bind listen accept accept4 connect recv recvfrom send sendto sendmsg recvmsg shutdown setsockopt getsockopt getsockname \
 getpeername poll select getaddrinfo freeaddrinfo close read write readv writev \
 open open64 openat openat64 creat stat stat64 lstat lstat64 fstatat fstat fstat64 access faccessat unlink rmdir remove rename link \
 mkdir mkstemp mkstemps mkostemp fsync fdatasync ftruncate truncate lseek lseek64 pread pwrite fcntl fcntl64 flock lockf ioctl \
 fdopendir opendir readdir readdir64 closedir dirfd fopen fopen64 fdopen fileno fclose mmap mmap64 munmap madvise msync chmod fchmod getpid
comma := ,
LDWRAP := $(foreach w,$(WRAPS),-Wl$(comma)--wrap=$(w))
LDF := -static -no-pie $(LDWRAP) -Wl,-T,sim/ttglob.ld -Wl,--allow-multiple-definition
# compile flags of the library as in its own build, plus instrumentation
TTF := -std=c++17 -O1 -g1 -fno-exceptions -DNDEBUG -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -I$(REPO)/src -I$(REPO)/third_party -w -fno-pie
HF := -std=c++17 -O1 -g1 -I$(REPO)/src -I$(REPO)/third_party -Wall -fno-pie

SIMO := $(addprefix $(B)/sim/,rt.o mem.o net.o fs.o run.o)
NOSTORE := BackendNCCL DistributedModule DistributedProcessGroup DistributedSampler ProcessGroup Reducer WorkNCCL
STORE_SRC := $(patsubst $(REPO)/src/%,%,$(filter-out $(addprefix $(REPO)/src/Distributed/,$(addsuffix .cpp,$(NOSTORE))),$(wildcard $(REPO)/src/Distributed/*.cpp))) Utils/Logger.cpp
STORE_O := $(patsubst %.cpp,$(B)/store/ttobj/%.o,$(STORE_SRC))
STORE_H := $(addprefix $(B)/store/h/,common.o tcpstore.o filestore.o logger.o)

# the logger's sink has no setter: used when its private members are as expected
SINKTEST := '\#include "Utils/Logger.h"\nusing namespace tinytorch; template<class T,typename T::type M> struct R{}; struct F{typedef LogFunc*type;}; struct C{typedef void**type;}; struct L{typedef LogLevel*type;}; template struct R<F,&Logger::logFunc_>; template struct R<C,&Logger::logContext_>; template struct R<L,&Logger::minLevel_>;'
HAVE_SINK := $(shell printf $(SINKTEST) | $(CXX) -std=c++17 -I$(REPO)/src -fsyntax-only -x c++ - 2>/dev/null && echo -DHAVE_SINK)
$(B)/store/h/logger.o: HF += $(HAVE_SINK)

.PHONY: store
store: $(B)/store.bin
$(B)/sim/%.o: sim/%.cpp sim/sim.h sim/rt.h sim/fd.h
	@mkdir -p $(@D)
	$(CXX) -std=c++17 -O2 -g1 -Wno-stringop-truncation -Wno-format-truncation -fno-pie -c $< -o $@
$(B)/store/ttobj/%.o: $(REPO)/src/%.cpp
	@mkdir -p $(@D)
	$(CXX) $(TTF) -MMD -MP -c $< -o $@
$(B)/store/h/%.o: checks/%.cpp checks/common.h sim/sim.h
	@mkdir -p $(@D)
	$(CXX) $(HF) -MMD -MP -c $< -o $@
$(B)/store.bin: $(STORE_O) $(STORE_H) $(SIMO) sim/ttglob.ld
	$(CXX) $(LDF) $(STORE_O) $(STORE_H) $(SIMO) -o $@

# ---- core: the whole CPU library
NOCORE := $(addprefix $(REPO)/src/Distributed/,BackendNCCL.cpp DistributedModule.cpp DistributedProcessGroup.cpp Reducer.cpp WorkNCCL.cpp FileStore.cpp TCPStore.cpp Store.cpp)
CORE_SRC := $(patsubst $(REPO)/src/%,%,$(filter-out $(NOCORE),$(shell find $(REPO)/src -name '*.cpp')))
CORE_O := $(patsubst %.cpp,$(B)/store/ttobj/%.o,$(CORE_SRC))
CORE_H := $(addprefix $(B)/core/h/,common.o serializer.o mnist.o work.o data.o alloc.o tensor.o)
.PHONY: core
# scenarios around code that lives in headers are instrumented too
$(B)/core/h/work.o $(B)/core/h/data.o $(B)/core/h/tensor.o: HF += -fno-exceptions -fsanitize=thread --param=tsan-instrument-func-entry-exit=0
core: $(B)/core.bin
$(B)/core/h/%.o: checks/%.cpp checks/common.h sim/sim.h
	@mkdir -p $(@D)
	$(CXX) $(HF) -MMD -MP -c $< -o $@
$(B)/core.bin: $(CORE_O) $(CORE_H) $(SIMO) sim/ttglob.ld
	$(CXX) $(LDF) $(CORE_O) $(CORE_H) $(SIMO) -o $@
# ---- dist: the whole library with CUDA and NCCL enabled, on simulated devices (simgpu)
DSRC := $(B)/dist/src
DIST_IN := $(shell find $(REPO)/src -name '*.cpp' -o -name '*.cu')
DIST_O := $(patsubst $(REPO)/src/%,$(B)/dist/ttobj/%.o,$(DIST_IN))
DIST_H := $(addprefix $(B)/dist/h/,common.o dist.o gpu.o) $(B)/sim/gpu.o $(B)/sim/nccl.o
DTTF := -std=c++17 -O1 -g1 -fno-exceptions -DNDEBUG -DUSE_CUDA -DUSE_NCCL -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -Isimgpu/include -I$(DSRC) -I$(REPO)/third_party -w -fno-pie
$(DSRC)/.stamp: $(shell find $(REPO)/src -type f) tools/cu2cpp.py
	python3 tools/cu2cpp.py $(REPO)/src $(DSRC)
	@touch $@
$(B)/sim/%.o: simgpu/%.cpp simgpu/gpu.h sim/sim.h sim/rt.h $(wildcard simgpu/include/*)
	@mkdir -p $(@D)
	$(CXX) -std=c++17 -O2 -g1 -fno-pie -Wno-class-memaccess -c $< -o $@
# only files whose rewritten text changed are compiled again
$(DSRC)/%: $(DSRC)/.stamp ;
$(B)/dist/ttobj/%.cpp.o: $(DSRC)/%.cpp
	@mkdir -p $(@D)
	$(CXX) $(DTTF) -MMD -MP -c $< -o $@
$(B)/dist/ttobj/%.cu.o: $(DSRC)/%.cu.cpp
	@mkdir -p $(@D)
	$(CXX) $(DTTF) -D__CUDACC__ -MMD -MP -c $< -o $@
$(B)/dist/h/common.o: checks/common.cpp checks/common.h sim/sim.h
	@mkdir -p $(@D)
	$(CXX) $(HF) -MMD -MP -c $< -o $@
$(B)/dist/h/%.o: checks/%.cpp checks/common.h sim/sim.h simgpu/gpu.h | $(DSRC)/.stamp
	@mkdir -p $(@D)
	$(CXX) $(DTTF) -MMD -MP -c $< -o $@
.SECONDARY:
.PHONY: dist
dist: $(B)/dist.bin
$(B)/dist.bin: $(DIST_O) $(DIST_H) $(SIMO) sim/ttglob.ld
	$(CXX) $(LDF) $(DIST_O) $(DIST_H) $(SIMO) -o $@

-include $(shell find $(B) -name '*.d' 2>/dev/null)
