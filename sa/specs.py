"""Which function decides which property."""
from . import spec_tensor as ST

ASSUME = [
    "rustc's MIR of the library (nightly front end) is what the stable compiler builds",
    "element values are real numbers: rounding, NaN and infinities of f32 are outside (C28)",
    "sizes stay below the 32-bit limit (products of dimensions do not wrap)",
    "standard library and dependency calls behave as modelled in sa/std.py",
]


class Spec:
    def __init__(self, run, how, assume=()):
        self.run, self.how, self.assume = run, how, ASSUME + list(assume)


HOW = ("Value-graph dataflow over the MIR of every function reached from the anchors: gated merges at joins, scalar "
       "evolution and comprehension summaries for loops; each clause compares the resulting normal form with the "
       "normal form of the specification for all inputs. A clause is proved (normal forms equal in context), violated "
       "(the normal forms provably differ: a valuation of their symbols separates them) or undecided (reported, not "
       "an alarm). ")
TABLE = {
    "C01": Spec(ST.c01, HOW + "Anchors: constructors, fills, every operation that writes a tensor, decoding."),
    "C02": Spec(ST.c02, HOW + "Anchors: element access, shape and index helpers, equality."),
    "C03": Spec(ST.c03, HOW + "Anchors: the six element-wise operations."),
    "C04": Spec(ST.c04, HOW + "Anchors: the four matrix products."),
    "C05": Spec(ST.c05, HOW + "Anchors: transposition, norm, indexed accumulation."),
    "C06": Spec(ST.c06, HOW + "Anchor: relu_self_and_store_mask."),
    "C07": Spec(ST.c07, HOW + "Anchor: Tensor::softmax, including the arguments of every exponential."),
    "C08": Spec(ST.c08, HOW + "Anchors: the two forward convolutions."),
    "C09": Spec(ST.c09, HOW + "Anchors: the two convolution gradients."),
    "C10": Spec(ST.c10, HOW + "Anchors: both pooling variants."),
    "C11": Spec(ST.c11, HOW + "Anchors: the geometry checks."),
    "C12": Spec(ST.c12, HOW + "Every possible panic site (index, slice, division, subtraction, unwrap) of every "
                              "public tensor operation must have an unsatisfiable guard."),
    "C27": Spec(ST.c27, HOW + "Anchors: the two random fills."),
}
from . import spec_layer as SL
from . import spec_network as SN
TABLE["C13"] = Spec(SL.c13, HOW + "Anchors: forward of the four layers in both modes.")
TABLE["C14"] = Spec(SL.c14, HOW + "Anchors: backward of the four layers, and what forward keeps for it.")
TABLE["C15"] = Spec(lambda K: (SL.c15_layers(K), SN.c15_network(K)), HOW + "Anchors: mode switches, getters, fills, constructors and refused backward passes.")
TABLE["C16"] = Spec(lambda K: (SL.c16_layers(K), SN.c16_network(K)), HOW + "Anchors: every operation that may change a buffer, in both modes.")
TABLE["C17"] = Spec(SL.c17, HOW + "Anchors: clear_gradients of the four layers in both modes.")
TABLE["C18"] = Spec(SL.c18, HOW + "Anchors: fill_from_state, new and the getters of the four layers.")
NETWORK = ("Layers behind trait objects are opaque: their getters are functions of the layer, their passes succeed or "
           "fail arbitrarily and fill their tensor with arbitrary values. Networks are analysed without layers and with "
           "any positive number of layers whose shapes chain. ")
TABLE["C19"] = Spec(SN.c19, HOW + NETWORK + "Anchors: new, add_layer, the passes, the switches, the getters.")
TABLE["C20"] = Spec(SN.c20, HOW + NETWORK + "Anchors: infer, get_output; the calls of Layer::forward are compared, "
                    "as a sequence, with the specification.")
TABLE["C21"] = Spec(SN.c21, HOW + NETWORK + "Anchors: backward; the calls of Layer::backward are compared, as a "
                    "sequence, with the specification.")
from . import effects as SX
from . import spec_store as SS
TABLE["C26"] = Spec(lambda K: (SX.c26(K), SS.c26_files(K)), "Effect analysis over the call graph (MIR of every function; dynamic calls go to every "
                    "implementation of the method): calls outside the crate are classified as reading randomness, clock, "
                    "environment, addresses, files, ...; statics and fields are checked for mutability behind shared "
                    "references; unsafe code is searched in the syntax tree. Every public function and trait method is a "
                    "root: it may reach no effect, except randomness in the two fills, writing in the two saving and "
                    "reading in the two loading functions. The paths given to the file functions are compared with the "
                    "name of the caller (value-graph dataflow).")
TABLE["C26"].technique = "call-graph effect analysis over MIR, with static/field mutability and unsafe-code rules"
TABLE["C26"].assume = ["dependencies (serde, bincode, rand distributions) have no effects of their own besides the random generator",
                       "functions of the standard library outside the listed modules have no effect"]
TABLE["C15"] = Spec(lambda K: (SL.c15_layers(K), SN.c15_network(K), SS.loaded(K, ("mode",))), TABLE["C15"].how.replace(
    "refused backward passes.", "refused backward passes, loading into a network."))
TABLE["C16"] = Spec(lambda K: (SL.c16_layers(K), SN.c16_network(K), SS.loaded(K, ("gradients",))), TABLE["C16"].how.replace(
    "in both modes.", "in both modes, including loading into a network."))
TABLE["C19"] = Spec(lambda K: (SN.c19(K), SS.loaded(K, ("states", "shapes"))), TABLE["C19"].how.replace(
    "the getters.", "loading, the getters."))
from . import codec as SK
TABLE["C23"] = Spec(lambda K: (SS.c23(K), SS.c23_network(K), SS.c23_add(K), SS.c23_tensor(K), SK.c23_codec(K)), HOW + NETWORK)
TABLE["C24"] = Spec(lambda K: (SS.c24(K), SS.c24_network(K), SS.c24_add(K), SS.c24_tensor(K)), HOW + NETWORK)
TABLE["C25"] = Spec(lambda K: (SS.c25(K), SS.c25_network(K), SS.c25_add(K)), HOW + NETWORK)
TABLE["C22"] = Spec(SS.c22, HOW + NETWORK)
