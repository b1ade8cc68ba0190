"""why a property has no check"""
NA = {
 "C35": "an infinite sum over all time computed by the external WCPG library (not installed, not in this repository): no finite unrolling of the code here decides it",
 "C36": "decided by Sollya (not installed; no encoding of its certified supremum norm is in reach). What the repository does around it - the constraints it builds for every specification and what it answers from Sollya's answers - is decided in C29",
 "C37": "the realization is built by a Matlab toolbox that writes a Simulink model: nothing of it is in this repository (the import of a model is decided in C33)",
}
