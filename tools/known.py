#!/usr/bin/env python3
# writes known_findings.jsonl (every recorded defect is repaired; an open one would carry status "open", suite and signature)
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
("C04","34851d1","matrix product gradients: parallel segments were numbered from the wrong end, so above one segment the right operand's gradient landed on wrong elements"),
("C01","3b28828","the derivative of sum ignored the gradient flowing into it"),
("C02","379f316","sum left a gradient on its result before any backward pass"),
("C01","d96dd6a","backward from a one-element result of rank 2 or more panicked or used a wrong jacobian"),
("C01","848d6ee","the derivative of dot could not be composed with other operations"),
("C16","5fc5979","adding to a gradient was read-then-write: concurrent passes lost contributions"),
("C04","8f74381","the derivative of a batched matrix product panicked or was wrong"),
("C15","f346e18","the matrix product derivative deadlocked inside a rayon worker (two joined scopes waiting on one lock)"),
("C18","4b4ce90","a matrix product of rank above 3 returned a wrong answer instead of refusing"),
("C10","3d7dda4","dot of views read the whole underlying tensors"),
("C10","953e2ae","scalar multiplication of views read the underlying tensor"),
("C08","5f8c361","get on a view with a bad index panicked instead of returning an error"),
("C09","1bbe25b","a slice of a view selected relative to the base tensor"),
("C09","d8ce919","reshaping a view read past or beside the view's elements"),
("C11","06d2056","index enumeration of empty tensors yielded indices; max_shape with a zero"),
("C08","0277954","a view's size-1 dimension did not accept any coordinate (broadcasting of views read outside)"),
("C01","9f09072","no derivative existed for an element-wise product of two tensors"),
("C13","7e5e1d1","parameters after an sgd step kept the old graph"),
("C02","1873c7e","accumulated gradients kept a history (and could be differentiated through, changing earlier reads)"),
("C11","a568c21","in a release build the element count of a shape wrapped around: a list of two elements was accepted for the shape [2^63 + 1, 2]"),
("C18","ede2e49","a refused gradient update poisoned the gradient"),
("C01","966ac69","backward through an operation on empty tensors panicked"),
("C06","395211c","dot of shared tensors and views panicked (todo!)"),
("C11","eecbf4e","building a tensor from an empty list panicked"),
("C01","b440f3a","backward walked every path of the graph: exponential time on stacked diamonds, stack overflow on long chains"),
("C01","5ab55d9","dropping the last handle of a long chain of operations overflowed the stack"),
("C18","0109bec","a multi-layer network given too short a parameter list replaced its last layers before refusing, and lists that are too long were accepted with part of them ignored"),
]
with open(os.path.join(here,"known_findings.jsonl"),"w") as o:
    for p,c,w in F:
        o.write(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"})+"\n")
