#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("random expression DAG programs; forward values and every gradient against an independent reference autodiff, exact for integers", "Integer programs are exact. Floating programs use a tolerance scaled by the magnitudes summed; elements whose gradient is undecided (kink of abs/relu, value near it) are not compared."),
"C02": ("stateful model-based histories over tensors, clones, passes, updates and resets, compared with a gradient ledger after every command", "Integer elements, exact."),
"C03": ("generated shapes, operand kinds and values against the triple-loop product", "Exact for integer elements, scaled tolerance for floats."),
"C04": ("generated shapes up to thousands of elements, random incoming gradient, against the closed-form operand gradients", "Exact for integer elements."),
"C05": ("generated compatible and incompatible shape pairs and operand kinds against the broadcasting rule", "Element-wise exact (single rounding each)."),
"C06": ("generated operand pairs against the element-wise / scalar / dot definitions", "Exact for integers; dot of floats within scaled tolerance."),
"C07": ("generated shapes and special values against the element-wise definition, comparing bits", "tanh is compared with the platform's tanh."),
"C08": ("generated tensors, view chains and index vectors (valid, off by one, huge, short, long) against the index rule", "An index is an error or the row-major element, both directions."),
"C09": ("generated slice/reshape chains against a model box selection", "Values and shapes exact."),
"C10": ("metamorphic: operation on a view against the same operation on a materialised copy, and the model", "Exact where the operation is a single rounding; scaled tolerance for float reductions."),
"C11": ("generated constructions, enumerations and perturbed pairs: round trip and iff-equality", "Refusals may be an error or a panic."),
"C12": ("generated layer stacks, inputs and replacement lists against the layer formula", "Scaled tolerance for floats."),
"C13": ("generated modules and gradients; snapshots before and after one optimizer step", "One rounding of difference allowed."),
"C14": ("generated training histories against reference backpropagation with gradient descent", "Tolerance grows with the history; histories whose values explode or sit at kinks are discarded and counted."),
"C15": ("generated workloads x pool sizes x calling contexts against the single-thread reference; completion judged by process state", "Schedules are sampled, not enumerated. A deadlock is reported only when every thread sleeps without CPU use for 20 s and a fresh process reproduces it."),
"C16": ("generated thread/contribution plans with an element type that holds threads inside the addition to force overlap; sum of contributions", "Interleavings are forced around element additions and otherwise sampled, not enumerated."),
"C17": ("generated operation sequences over a pool of tensors with snapshots around every call", "Bit comparison."),
"C18": ("generated incompatible calls of every listed kind; refused and operands intact, before and after", "A refusal is an error result or a panic; the text is not judged."),
"C19": ("generated forward programs over owned, shared and view values against an n-d array interpreter", "Exact for integers, scaled tolerance for floats."),
}
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
 "notes": "No hooks: everything is reached through the public API. Repairs in /repo are the fix: commits listed in known_findings.jsonl."}
for i, (t, n) in T.items():
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t, "level": "exploration",
      "level_note": "Generated-input search: shows the property on the cases explored, never absence of a counterexample. " + n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
