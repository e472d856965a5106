// FMUs behind the import library of the repository, in the form of a Lib: the
// same importers can drive an FMU directly or through the library.
#pragma once
#include "common.hpp"
#include <atomic>
#include <mutex>
#include "FMI2.h"
#include "FMI3.h"

namespace imported {

// Belongs to one FMIInstance; its userData.
struct Link {
    void *env = nullptr;
    std::string name;
    int ver = 0;
    fmi2CallbackLogger log2 = nullptr;
    fmi3LogMessageCallback log3 = nullptr;
    fmi3IntermediateUpdateCallback iu = nullptr;
    fmi3ClockUpdateCallback clock = nullptr;
    std::atomic<uint64_t> calls{0}, strayed{0};
};
inline thread_local bool callLog;
inline std::atomic<uint64_t> logged{0};

inline Link *of(FMIInstance *i) { return (Link *)i->userData; }

inline void message(FMIInstance *i, FMIStatus st, const char *cat, const char *msg) {
    Link *k = of(i);
    if (!k) return;
    if (k->ver == 2 && k->log2) k->log2(k->env, k->name.c_str(), (fmi2Status)st, cat, "%s", msg);
    if (k->ver == 3 && k->log3) k->log3(k->env, (fmi3Status)st, cat, msg);
}
inline void functionCall(FMIInstance *i, FMIStatus, const char *msg) {
    Link *k = of(i);
    if (!k || !msg || strncmp(msg, k->ver == 2 ? "fmi2" : "fmi3", 4)) { if (k) k->strayed++; return; }
    k->calls++;
    logged++;
}
inline void update(fmi3InstanceEnvironment env, fmi3Float64 t, fmi3Boolean a, fmi3Boolean b, fmi3Boolean c, fmi3Boolean d, fmi3Boolean *req, fmi3Float64 *time) {
    Link *k = of((FMIInstance *)env);
    if (k && k->iu) k->iu(k->env, t, a, b, c, d, req, time);
}
inline void clockUpdate(fmi3InstanceEnvironment env) { Link *k = of((FMIInstance *)env); if (k && k->clock) k->clock(k->env); }
inline void drop(FMIInstance *i) { Link *k = of(i); FMIFreeInstance(i); delete k; }

inline FMIInstance *create(const char *name, void *env, int ver) {
    FMIInstance *i = FMICreateInstance(name, message, callLog ? functionCall : nullptr);
    if (!i) return nullptr;
    Link *k = new Link;
    k->env = env;
    k->name = name;
    k->ver = ver;
    i->userData = k;
    if (FMILoadPlatformBinary(i, openingLib->path.c_str()) != FMIOK) { drop(i); return nullptr; }
    return i;
}

inline fmi2Component instantiate2(fmi2String name, fmi2Type t, fmi2String guid, fmi2String res, const fmi2CallbackFunctions *cb, fmi2Boolean vis, fmi2Boolean log) {
    FMIInstance *i = create(name, cb->componentEnvironment, 2);
    if (!i) return nullptr;
    of(i)->log2 = cb->logger;
    if (FMI2Instantiate(i, res, t, guid, vis, log) != FMIOK) { drop(i); return nullptr; }
    return i;
}
inline fmi3Instance instantiateME(fmi3String name, fmi3String tok, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3InstanceEnvironment env, fmi3LogMessageCallback lg) {
    FMIInstance *i = create(name, env, 3);
    if (!i) return nullptr;
    of(i)->log3 = lg;
    if (FMI3InstantiateModelExchange(i, tok, res, vis, log) != FMIOK) { drop(i); return nullptr; }
    return i;
}
inline fmi3Instance instantiateCS(fmi3String name, fmi3String tok, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3Boolean ev, fmi3Boolean early, const fmi3ValueReference rq[], size_t n,
                                  fmi3InstanceEnvironment env, fmi3LogMessageCallback lg, fmi3IntermediateUpdateCallback iu) {
    FMIInstance *i = create(name, env, 3);
    if (!i) return nullptr;
    of(i)->log3 = lg;
    of(i)->iu = iu;
    if (FMI3InstantiateCoSimulation(i, tok, res, vis, log, ev, early, rq, n, iu ? update : nullptr) != FMIOK) { drop(i); return nullptr; }
    return i;
}
inline fmi3Instance instantiateSE(fmi3String name, fmi3String tok, fmi3String res, fmi3Boolean vis, fmi3Boolean log, fmi3InstanceEnvironment env, fmi3LogMessageCallback lg,
                                  fmi3ClockUpdateCallback cu, fmi3LockPreemptionCallback lk, fmi3UnlockPreemptionCallback ul) {
    FMIInstance *i = create(name, env, 3);
    if (!i) return nullptr;
    of(i)->log3 = lg;
    of(i)->clock = cu;
    if (FMI3InstantiateScheduledExecution(i, tok, res, vis, log, env, lg, cu ? clockUpdate : nullptr, lk, ul) != FMIOK) { drop(i); return nullptr; }
    return i;
}
inline void free2(fmi2Component c) { FMIInstance *i = (FMIInstance *)c; FMI2FreeInstance(i); drop(i); }
inline void free3(fmi3Instance c) { FMIInstance *i = (FMIInstance *)c; FMI3FreeInstance(i); drop(i); }

template <class R, auto F> struct Fwd;
template <class R, class... A, FMIStatus (*F)(FMIInstance *, A...)> struct Fwd<R, F> {
    static R call(void *c, A... a) { return (R)F((FMIInstance *)c, a...); }
};

inline Lib *lib(Lib *d) {
    static std::mutex mu;
    static std::map<Lib *, Lib *> made;
    std::lock_guard<std::mutex> g(mu);
    Lib *&l = made[d];
    if (l) return l;
    l = new Lib(*d);
#define A2(n) l->a2.n = Fwd<fmi2Status, FMI2##n>::call
#define A3(n) l->a3.n = Fwd<fmi3Status, FMI3##n>::call;
    if (d->ver == 2) {
        l->a2 = Api2();
        l->a2.Instantiate = instantiate2;
        l->a2.FreeInstance = free2;
        A2(SetDebugLogging); A2(SetupExperiment); A2(EnterInitializationMode); A2(ExitInitializationMode); A2(Terminate); A2(Reset);
        A2(GetReal); A2(GetInteger); A2(GetBoolean); A2(GetString); A2(SetReal); A2(SetInteger); A2(SetBoolean); A2(SetString);
        A2(GetFMUstate); A2(SetFMUstate); A2(FreeFMUstate); A2(SerializedFMUstateSize); A2(SerializeFMUstate); A2(DeSerializeFMUstate);
        A2(GetDirectionalDerivative); A2(EnterEventMode); A2(NewDiscreteStates); A2(EnterContinuousTimeMode); A2(CompletedIntegratorStep);
        A2(SetTime); A2(SetContinuousStates); A2(GetDerivatives); A2(GetEventIndicators); A2(GetContinuousStates); A2(GetNominalsOfContinuousStates);
        A2(SetRealInputDerivatives); A2(GetRealOutputDerivatives); A2(DoStep); A2(CancelStep);
        A2(GetStatus); A2(GetRealStatus); A2(GetIntegerStatus); A2(GetBooleanStatus); A2(GetStringStatus);
    } else {
        l->a3 = Api3();
        l->a3.InstantiateModelExchange = instantiateME;
        l->a3.InstantiateCoSimulation = instantiateCS;
        l->a3.InstantiateScheduledExecution = instantiateSE;
        l->a3.FreeInstance = free3;
        A3(SetDebugLogging) A3(EnterInitializationMode) A3(ExitInitializationMode) A3(EnterEventMode) A3(Terminate) A3(Reset)
        A3(GetFloat32) A3(GetFloat64) A3(GetInt8) A3(GetUInt8) A3(GetInt16) A3(GetUInt16) A3(GetInt32) A3(GetUInt32) A3(GetInt64) A3(GetUInt64) A3(GetBoolean)
        A3(GetString) A3(GetBinary) A3(GetClock) A3(SetFloat32) A3(SetFloat64) A3(SetInt8) A3(SetUInt8) A3(SetInt16) A3(SetUInt16) A3(SetInt32) A3(SetUInt32)
        A3(SetInt64) A3(SetUInt64) A3(SetBoolean) A3(SetString) A3(SetBinary) A3(SetClock) A3(GetNumberOfVariableDependencies) A3(GetVariableDependencies)
        A3(GetFMUState) A3(SetFMUState) A3(FreeFMUState) A3(SerializedFMUStateSize) A3(SerializeFMUState) A3(DeserializeFMUState)
        A3(GetDirectionalDerivative) A3(GetAdjointDerivative) A3(EnterConfigurationMode) A3(ExitConfigurationMode) A3(GetIntervalDecimal)
        A3(GetIntervalFraction) A3(GetShiftDecimal) A3(GetShiftFraction) A3(SetIntervalDecimal) A3(SetIntervalFraction) A3(SetShiftDecimal) A3(SetShiftFraction)
        A3(EvaluateDiscreteStates) A3(UpdateDiscreteStates) A3(EnterContinuousTimeMode) A3(CompletedIntegratorStep) A3(SetTime) A3(SetContinuousStates)
        A3(GetContinuousStateDerivatives) A3(GetEventIndicators) A3(GetContinuousStates) A3(GetNominalsOfContinuousStates)
        A3(GetNumberOfEventIndicators) A3(GetNumberOfContinuousStates) A3(EnterStepMode) A3(GetOutputDerivatives) A3(DoStep) A3(ActivateModelPartition)
    }
#undef A2
#undef A3
    return l;
}

}  // namespace imported
