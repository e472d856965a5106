/* A stand-in for an FMU binary: every function jumps to wherever its slot points. */
#define FUNCS2(X) \
 X(fmi2GetTypesPlatform) X(fmi2GetVersion) X(fmi2SetDebugLogging) X(fmi2Instantiate) X(fmi2FreeInstance) X(fmi2SetupExperiment) \
 X(fmi2EnterInitializationMode) X(fmi2ExitInitializationMode) X(fmi2Terminate) X(fmi2Reset) X(fmi2GetReal) X(fmi2GetInteger) X(fmi2GetBoolean) X(fmi2GetString) \
 X(fmi2SetReal) X(fmi2SetInteger) X(fmi2SetBoolean) X(fmi2SetString) X(fmi2GetFMUstate) X(fmi2SetFMUstate) X(fmi2FreeFMUstate) X(fmi2SerializedFMUstateSize) \
 X(fmi2SerializeFMUstate) X(fmi2DeSerializeFMUstate) X(fmi2GetDirectionalDerivative) X(fmi2EnterEventMode) X(fmi2NewDiscreteStates) \
 X(fmi2EnterContinuousTimeMode) X(fmi2CompletedIntegratorStep) X(fmi2SetTime) X(fmi2SetContinuousStates) X(fmi2GetDerivatives) X(fmi2GetEventIndicators) \
 X(fmi2GetContinuousStates) X(fmi2GetNominalsOfContinuousStates) X(fmi2SetRealInputDerivatives) X(fmi2GetRealOutputDerivatives) X(fmi2DoStep) X(fmi2CancelStep) \
 X(fmi2GetStatus) X(fmi2GetRealStatus) X(fmi2GetIntegerStatus) X(fmi2GetBooleanStatus) X(fmi2GetStringStatus)
#define FUNCS3(X) \
 X(fmi3GetVersion) X(fmi3SetDebugLogging) X(fmi3InstantiateModelExchange) X(fmi3InstantiateCoSimulation) X(fmi3InstantiateScheduledExecution) X(fmi3FreeInstance) \
 X(fmi3EnterInitializationMode) X(fmi3ExitInitializationMode) X(fmi3EnterEventMode) X(fmi3Terminate) X(fmi3Reset) \
 X(fmi3GetFloat32) X(fmi3GetFloat64) X(fmi3GetInt8) X(fmi3GetUInt8) X(fmi3GetInt16) X(fmi3GetUInt16) X(fmi3GetInt32) X(fmi3GetUInt32) X(fmi3GetInt64) X(fmi3GetUInt64) X(fmi3GetBoolean) \
 X(fmi3GetString) X(fmi3GetBinary) X(fmi3GetClock) X(fmi3SetFloat32) X(fmi3SetFloat64) X(fmi3SetInt8) X(fmi3SetUInt8) X(fmi3SetInt16) X(fmi3SetUInt16) X(fmi3SetInt32) X(fmi3SetUInt32) \
 X(fmi3SetInt64) X(fmi3SetUInt64) X(fmi3SetBoolean) X(fmi3SetString) X(fmi3SetBinary) X(fmi3SetClock) X(fmi3GetNumberOfVariableDependencies) X(fmi3GetVariableDependencies) \
 X(fmi3GetFMUState) X(fmi3SetFMUState) X(fmi3FreeFMUState) X(fmi3SerializedFMUStateSize) X(fmi3SerializeFMUState) X(fmi3DeserializeFMUState) \
 X(fmi3GetDirectionalDerivative) X(fmi3GetAdjointDerivative) X(fmi3EnterConfigurationMode) X(fmi3ExitConfigurationMode) X(fmi3GetIntervalDecimal) \
 X(fmi3GetIntervalFraction) X(fmi3GetShiftDecimal) X(fmi3GetShiftFraction) X(fmi3SetIntervalDecimal) X(fmi3SetIntervalFraction) X(fmi3SetShiftDecimal) X(fmi3SetShiftFraction) \
 X(fmi3EvaluateDiscreteStates) X(fmi3UpdateDiscreteStates) X(fmi3EnterContinuousTimeMode) X(fmi3CompletedIntegratorStep) X(fmi3SetTime) X(fmi3SetContinuousStates) \
 X(fmi3GetContinuousStateDerivatives) X(fmi3GetEventIndicators) X(fmi3GetContinuousStates) X(fmi3GetNominalsOfContinuousStates) \
 X(fmi3GetNumberOfEventIndicators) X(fmi3GetNumberOfContinuousStates) X(fmi3EnterStepMode) X(fmi3GetOutputDerivatives) X(fmi3DoStep) X(fmi3ActivateModelPartition)

#define SLOT(f) __attribute__((visibility("hidden"))) void *slot_##f = 0;
FUNCS2(SLOT)
FUNCS3(SLOT)
#define JUMP(f) __asm__(".text\n.globl " #f "\n.type " #f ",@function\n" #f ":\n jmp *slot_" #f "(%rip)\n.size " #f ",.-" #f "\n");
FUNCS2(JUMP)
FUNCS3(JUMP)

struct entry { const char *name; void **slot; };
#define ENTRY(f) {#f, &slot_##f},
struct entry mockTable[] = {FUNCS2(ENTRY) FUNCS3(ENTRY) {0, 0}};
