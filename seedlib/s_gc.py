import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import prog
from gcdemo import gc, share
C='src/eval/memory/collect.rs'; K='src/eval/bytecode/cont.rs'; B='src/eval/bytecode/closure.rs'; S='src/eval/bytecode/machine.rs'; E='src/eval/machine/env.rs'
S = [
 dict(id="g01-vec-unmarked", prop="G01",
  edits=[(B,"        Native::Vec(ptr) => {\n            marker.mark(*ptr);\n        }","        Native::Vec(_) => {}")],
  demo=gc(False,5), needs="a vec that is live across a collection and whose line is then reused",
  breaks="vec objects are not marked, so live vecs are reclaimed and overwritten"),
 dict(id="g01-frame-tail-unscanned", prop="G01",
  edits=[(E,"            for binding in bindings.iter() {\n                out.push(ScanPtr::new(scope, binding));","            for binding in bindings.iter().take(u8::MAX as usize + 1) {\n                out.push(ScanPtr::new(scope, binding));")],
  demo=gc(False,300), needs="an environment frame with more than 256 bindings",
  breaks="bindings past the 256th of a frame are not traced"),
 dict(id="g02-frame-last-stale", prop="G02",
  edits=[(E,"        for binding in self.bindings.iter_mut() {\n            binding.scan_and_update(heap);\n        }","        let n = self.bindings.len();\n        for (i, binding) in self.bindings.iter_mut().enumerate() {\n            if i + 1 == n && n > 4 {\n                break;\n            }\n            binding.scan_and_update(heap);\n        }")],
  demo=share(5), needs="a moving collection of a frame with more than four bindings",
  breaks="the last binding of a larger frame keeps its stale address after evacuation"),
 dict(id="g02-annotated-closure-stale", prop="G02",
  edits=[(B,"        if let Some(new_env) = heap.forwarded_to(self.env()) {\n            self.set_env(new_env);\n        }","        match heap.forwarded_to(self.env()) {\n            Some(new_env) if !self.update() => self.set_env(new_env),\n            _ => {}\n        }")],
  demo=share(5).replace("BcClosure::new(7, shared)", "BcClosure::close(&InfoTagged::thunk(7), shared)").replace("use eucalypt::eval::bytecode::*;","use eucalypt::eval::bytecode::*; use eucalypt::eval::memory::infotable::InfoTagged;"),
  needs="a moving collection with thunks sharing an environment", breaks="thunk closures keep the old environment address after evacuation, so sharing is lost"),
]
