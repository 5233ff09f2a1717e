#!/bin/bash
# Builds the simulator against /repo's current working tree.
# usage: build.sh <dir> <asan|plain|tsan>
set -e
D=$1; KIND=${2:-asan}
SIM=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
mkdir -p "$D/obj"
cat > "$D/Makefile.sim" <<MK
SIM=$SIM
REPO=$REPO
CXX=clang++
DEFS=-DCRG_BUILD_STATIC -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=0 -DCRG_VERSION_BUILD=0
INC=-I\$(SIM) -I\$(REPO)/include -I\$(REPO)/source/RenderGraph
BASE=-std=c++17 -g1 -O1 -fno-omit-frame-pointer -w \$(DEFS) \$(INC) -MMD -MP
KIND=$KIND
ifeq (\$(KIND),asan)
LIBF=-fsanitize=address -fno-sanitize-address-use-after-scope
SIMF=-fsanitize=address -fno-sanitize-address-use-after-scope
LDF=-fsanitize=address
endif
ifeq (\$(KIND),tsan)
LIBF=-fsanitize=thread
SIMF=-DSIM_TSAN
LDF=-rdynamic
endif
LIBSRC=\$(sort \$(shell find \$(REPO)/source/RenderGraph -name '*.cpp'))
SIMSRC=\$(sort \$(wildcard \$(SIM)/*.cpp))
LIBOBJ=\$(patsubst \$(REPO)/source/RenderGraph/%.cpp,obj/lib/%.o,\$(LIBSRC))
SIMOBJ=\$(patsubst \$(SIM)/%.cpp,obj/sim/%.o,\$(SIMSRC))
dsim: \$(LIBOBJ) \$(SIMOBJ)
	\$(CXX) -o \$@ \$^ \$(LDF) -lpthread -ldl
obj/lib/%.o: \$(REPO)/source/RenderGraph/%.cpp
	@mkdir -p \$(dir \$@)
	\$(CXX) \$(BASE) \$(LIBF) -c \$< -o \$@
obj/sim/%.o: \$(SIM)/%.cpp
	@mkdir -p \$(dir \$@)
	\$(CXX) \$(BASE) \$(SIMF) -c \$< -o \$@
-include \$(LIBOBJ:.o=.d) \$(SIMOBJ:.o=.d)
MK
cd "$D" && make -s -j"$(nproc)" -f Makefile.sim dsim
