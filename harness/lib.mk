# Builds OUT/pyregpt (the package of REPO with its library, compiled with the project's own flags and source list).
.DEFAULT_GOAL := vt
include $(REPO)/src/Makefile
comma := ,
VTOBJ := $(SRC:%.c=$(OUT)/obj/%.o) $(OUT)/obj/vt_alloc.o $(OUT)/obj/vt_suave.o $(OUT)/obj/vt_share.o
# SAN=1: the same with every access of the library to memory checked
VTSAN := $(if $(SAN),-g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-recover=address -DVT_SAN)
# RACE=1: the same with every access of the library reported to share.c
VTREP := $(if $(RACE),-g1 -fsanitize=thread)
VTDEF := $(if $(RACE),-DVT_RACE)
VTWRAP := $(if $(RACE),$(foreach f,GOMP_parallel GOMP_barrier GOMP_loop_end GOMP_sections_end GOMP_critical_start GOMP_critical_end GOMP_atomic_start GOMP_atomic_end GOMP_critical_name_start GOMP_critical_name_end omp_set_lock omp_unset_lock,-Wl$(comma)--wrap=$(f)))
VTSO := $(OUT)/pyregpt/lib/regpt.so
vt: $(VTSO)
$(OUT)/obj/vt_%.o: $(HARNESS)/%.c
	@mkdir -p $(OUT)/obj
	@$(CC) -O2 -Wall -fPIC $(VTSAN) $(VTDEF) -I$(HARNESS) -c $< -o $@
$(OUT)/obj/%.o: $(REPO)/src/%.c
	@mkdir -p $(OUT)/obj
	@$(CC) $(OPT) $(VTSAN) $(VTREP) $(VTDEF) -w -fPIC -I$(HARNESS) -include $(HARNESS)/vt.h -c $< -o $@
$(VTSO): $(VTOBJ)
	@mkdir -p $(dir $@)
	@$(CC) $(OPT) $(VTSAN) $(VTWRAP) -shared $^ -lm -lpthread -ldl -o $@
	@cp $(wildcard $(REPO)/pyregpt/*.py) $(OUT)/pyregpt/
.PHONY: vt
