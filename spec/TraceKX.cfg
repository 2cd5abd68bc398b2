SPECIFICATION Spec
CONSTANT Traces <- LoadTraces
