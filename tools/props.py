"""The property table: properties.jsonl and MANIFEST.json are generated from it (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = ("Every obligation generated from /repo's current source is discharged for all values and all sizes of the listed configurations "
        "(real arithmetic; keras.ops semantics assumed as stated in engine/kops.py). Run-time evaluation of the same contracts on the real "
        "keras supplements it (bounded, not counted as proved). ")


def prop(id, title, statement, over, quant, why, files, mech, level="proof", note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=["src/decomon/" + f for f in files], mech=mech, level=level, note=note, observe=list(observe)))


I = ["inputs"]
IC = ["inputs", "configurations"]

prop("C01", "Box domain: constant bounds are the exact extrema",
     "Over a box, the upper (lower) constant computed for an affine function equals its exact maximum (minimum) over the box, element by element, identity included. Degenerate boxes (lower corner equal to upper corner) are covered.",
     I, "all boxes, all real weights and biases, all batch, input and output dimensions (output ranks 1 to 3)",
     "tests sample a few one- to three-dimensional boxes with fixed weights",
     ["core.py"], ["BoxDomain.get_upper", "BoxDomain.get_lower", "get_upper_box", "get_lower_box"])
prop("C02", "Ball domains: constant bounds are the exact extrema",
     "Over an l1, l2 or l-infinity ball the upper (lower) constant computed for an affine function equals its exact maximum (minimum) over the ball; a grid domain is bounded by its covering box.",
     IC, "all centres, radii >= 0, weights, biases and dimensions; p in {1, 2, inf}; output ranks 1 to 3",
     "tests use one radius and a handful of centres and never compare with the dual norm",
     ["core.py"], ["BallDomain.get_upper", "BallDomain.get_lower", "get_upper_ball", "get_lower_ball", "get_lq_norm"])
prop("C03", "Ball domains: finetuned constants stay sound",
     "Over a ball intersected with known component bounds, the finetuned upper (lower) constant is above (below) the affine function at every point of the intersection, for every finetuning coefficient in [0,1].",
     IC, "all balls, component bounds, weights, biases and coefficients; upper only, lower only or both known",
     "tests never call it with non trivial coefficients",
     ["core.py"], ["get_upper_ball_finetune", "get_lower_ball_finetune", "BallDomain.get_upper", "BallDomain.get_lower"])
prop("C04", "Dense: propagated bounds enclose the layer output",
     "Given bounds enclosing the input of a dense layer, the bounds it returns enclose the output of the same Keras dense layer at every point of the domain, in hybrid, ibp and affine modes; with difference-of-convex outputs on, their sum is that output.",
     IC, "all kernels, biases, relaxations, dimensions; with and without bias, symbolic input ranks, identity input, diagonal input",
     "soundness is a statement over all weights and all points; tests compare on about ten fixed one-dimensional inputs",
     ["layers/decomon_layers.py", "layers/core.py", "core.py"], ["DecomonDense.call", "InputsOutputsSpec.get_fullinputs_from_inputsformode", "InputsOutputsSpec.extract_outputsformode_from_fulloutputs"])
prop("C05", "Conv2D: propagated bounds enclose the layer output",
     "Given bounds enclosing the input of a 2D convolution, the bounds it returns enclose the output of the same Keras convolution at every point of the domain, in all three modes, both paddings, both data formats and any stride.",
     IC, "all kernels, biases and relaxations; symbolic batch, channels, filters and input dimension; kernel, stride, padding and image geometry abstract (any linear window map)",
     "tests fix one image and one kernel geometry",
     ["layers/decomon_layers.py"], ["DecomonConv2D.call"])
prop("C06", "ReLU: propagated bounds enclose the activation",
     "For every slope strategy and every finetuning coefficient in [0,1], bounds enclosing the input of a ReLU are turned into bounds enclosing its output (up to 1e-7), in all modes.",
     IC, "all relaxations, points and dimensions, five slope strategies, finetuning on and off, with and without difference-of-convex tensors",
     "a finite sample of intervals cannot exclude a crossing between the sampled points",
     ["utils.py", "layers/activations.py", "layers/decomon_layers.py"], ["get_linear_hull_relu", "relu_", "DecomonActivation.call"])
prop("C07", "Smooth activations: propagated bounds enclose the function",
     "Bounds enclosing the input of sigmoid, tanh, softsign, softplus, exponential or softmax are turned into bounds enclosing its output (up to rounding), in every mode the activation supports.",
     IC, "all intervals and relaxations; ranks 1 and 2, softmax over any axis",
     "the tangent search only looks at grid points: validity between them is a statement over all reals",
     ["utils.py", "layers/activations.py", "layers/utils.py"], ["get_linear_hull_s_shape", "get_t_upper", "get_t_lower", "get_linear_softplus_hull", "softplus_", "exp", "softmax"])
prop("C08", "Affine and reshaping layers: bounds enclose the output",
     "Batch normalization, flatten, reshape, permute, dropout, input layers and the linear activation map enclosing bounds to enclosing bounds of the same Keras layer, in all modes, data formats and axes.",
     IC, "all parameters and relaxations with symbolic dimensions; tensor ranks 1 to 3",
     "tests check one image size in one data format per layer",
     ["layers/decomon_layers.py", "layers/decomon_reshape.py"], ["DecomonBatchNormalization.call", "DecomonFlatten.call", "DecomonReshape.call", "DecomonPermute.call", "DecomonDropout.call"])
prop("C09", "Merge layers: bounds enclose the merged value",
     "Given bounds enclosing each input over the same domain, addition, subtraction, average, product, maximum, minimum, concatenation and dot-product layers (and the two-operand operations they use) return bounds enclosing the merged value, in all modes.",
     IC, "all relaxations with symbolic dimensions; 1 to 4 inputs, tensor ranks 1 to 3, all concatenation and contraction axes; finetuning coefficients in [0,1]",
     "tests merge two fixed vectors; three or more inputs, other axes and products of mixed sign are not reached",
     ["layers/decomon_merge_layers.py", "utils.py", "layers/utils.py"], ["DecomonAdd.call", "DecomonSubtract.call", "DecomonAverage.call", "DecomonMultiply.call", "DecomonMaximum.call", "DecomonMinimum.call", "DecomonConcatenate.call", "DecomonDot.call", "maximum", "minimum", "add", "subtract", "minus", "multiply", "permute_dimensions"])

prop("C10", "Operations on bounded tensors enclose their result",
     "Given bounds enclosing a tensor, the library operations sum, max, min, sort, split, square, absolute value, reciprocal, exponential, logarithm, permutation, broadcasting and adding a dimension return bounds enclosing the result along any axis, in all modes (up to rounding).",
     IC, "all relaxations with symbolic dimensions; tensor ranks 1 to 3, every axis, positive and negative; 1 to 4 values along the axis of max, min, sort and split",
     "tests use one axis of one fixed tensor, and not at all for several operations",
     ["layers/utils.py", "utils.py"], ["sum", "max_", "min_", "sort", "split", "pow", "abs", "frac_pos", "exp", "log", "permute_dimensions", "broadcast", "expand_dims"],
     note="The number of values along the reduced axis of max_, min_, sort and split is enumerated (1 to 4), the other dimensions are symbolic. ")
prop("C11", "MaxPooling2D: propagated bounds enclose the pooled values",
     "Given bounds enclosing an image, both the fast and the precise max pooling layers return bounds enclosing the output of the same Keras max pooling at every point of the domain, in all modes, both paddings, both data formats, any pool size and stride.",
     IC, "all relaxations; symbolic image sizes for valid padding, a few image sizes for same padding; seven pool and stride combinations",
     "tests pool one image with one square window",
     ["layers/maxpooling.py", "layers/utils.py"], ["DecomonMaxPooling2D.call", "max_"],
     note="Pool sizes and strides are enumerated (seven combinations), image sizes too for the same padding. ")

prop("C12", "Backward linear layers: the affine bounds compose with the layer",
     "Given affine bounds on the output of a dense, convolution, batch normalization, flatten, permute, reshape, dropout or input layer, the backward version of the layer returns affine bounds on its input: at every input they are on the right side of, and for these exact layers equal to, the given ones at the layer's output.",
     IC, "all kernels, parameters and incoming weights; built from a Keras layer or a decomon layer; symbolic dimensions for most layers, enumerated image sizes for convolutions",
     "tests compare with a forward pass for one fixed network shape and non-negative weights only in part",
     ["backward_layers/backward_layers.py", "backward_layers/backward_reshape.py", "backward_layers/utils.py"],
     ["BackwardDense.call", "BackwardConv2D.call", "BackwardBatchNormalization.call", "BackwardFlatten.call", "BackwardReshape.call", "BackwardPermute.call", "BackwardDropout.call", "BackwardInputLayer.call"],
     note="The middle dimensions of inputs of dense layers and the image sizes of convolutions are enumerated, the rest is symbolic. ")
prop("C13", "Backward activations: the affine bounds relax the activation",
     "Given affine bounds on the output of an activation, the backward activation returns affine bounds on its input which, at every input enclosed by the known bounds, are above (below) the given upper (lower) bound at the activated input (up to rounding), for every slope and finetuning coefficient.",
     IC, "all incoming weights, intervals, points; relu, sigmoid, tanh, softsign, softplus; five slopes; input ranks 1 to 3; with and without finetuning",
     "tests check two activations at a few points of a few fixed intervals",
     ["backward_layers/activations.py", "backward_layers/backward_layers.py", "backward_layers/utils.py", "utils.py"],
     ["backward_relu", "backward_relu_", "backward_sigmoid", "backward_tanh", "backward_softsign", "backward_softplus", "BackwardActivation.call"])

prop("C14", "Backward merges: the affine bounds relax the merged value",
     "Given affine bounds on the output of a merge (sum, average, difference, maximum, minimum, product), the backward merge returns one affine bound per operand: as a function of that operand alone it is above (below) the given upper (lower) bound at the merged value, whatever values the other operands take within their bounds. Negation and scaling are exact.",
     IC, "all relaxations, incoming weights and dimensions; operand ranks 1 to 3; 1 or 2 operands for sums, 1 to 4 for averages; built from a Keras layer or a decomon layer",
     "tests cover three of them for fixed one-dimensional operands",
     ["backward_layers/utils.py", "backward_layers/backward_merge.py"],
     ["backward_add", "backward_subtract", "backward_maximum", "backward_minimum", "backward_multiply", "backward_minus", "backward_scale", "BackwardAdd.call", "BackwardAverage.call", "BackwardSubtract.call", "BackwardMaximum.call", "BackwardMinimum.call", "BackwardMultiply.call"])

prop("C15", "Composing bounds: chaining, closing on the domain, changing kind, input",
     "Chaining affine bounds of a value in terms of an intermediate value with affine bounds of that intermediate value gives affine bounds of the value in terms of the earlier one. Closing affine bounds on the perturbation domain gives valid constant bounds. Converting bounds from one kind (constant, affine, both) to another keeps them valid and refers to the same domain. The bounds put on the model input hold for every point of the domain.",
     IC, "chains of affine bounds, bound tensors of every mode, domains: all weights (full or diagonal), biases, dimensions, ranks 1 to 3; the 9 pairs of modes; boxes and balls of the three norms; every point of the domain",
     "tests compare a few chains with hand-computed boxes; soundness is a statement over every intermediate value",
     ["models/crown.py", "models/utils.py", "core.py"],
     ["merge_with_previous", "MergeWithPrevious.call", "Fuse.call", "Convert2BackwardMode.call", "Convert2Mode.call", "get_input_tensors", "merge_with_previous_compute_output_shape"])

prop("C16", "Whole model, forward methods: bounds enclose every output of the Keras model",
     "Converting a Keras model with a forward method gives a model whose outputs are, for each output of the Keras model in order, bounds that hold at every point of the perturbation domain, whatever the graph: branches merged by a layer in the order of its operands, layers called several times, layers of other models, nested models, several outputs at any depth. A final softmax is left out. The final kind of bounds can be requested. The Keras model itself (function, weights, names) is not changed by the conversion.",
     IC, "weights, domains, points: all; widths: all; graphs: the topologies of contracts/c16.py plus every graph of at most three calls of four kinds of layers (longer graphs follow the same loop over nodes); methods, modes, slopes, options enumerated",
     "tests clone ten toy models and compare on one box each; which tensors feed which layer must be right on every graph",
     ["models/convert.py", "models/forward_cloning.py", "models/utils.py", "models/models.py", "layers/convert.py", "keras_utils.py", "layers/utils.py"],
     ["clone", "convert", "convert_forward_functional_model", "get_depth_dict", "split_activation", "share_weights_and_build", "softmax_to_linear", "to_decomon", "convert_outputs_to_mode"])
prop("C17", "Whole model, backward methods: bounds enclose every output of the Keras model",
     "Converting a Keras model (a tree of layers with one input: chains, branches to several outputs, nested models) with a backward method, with or without forward bounds for the intermediate values, gives for each output bounds that hold at every point of the domain, whatever the final kind of bounds requested. When a matrix, or affine bounds, of the outputs is given, the bounds are those of these functions of the outputs. The Keras model is not changed by the conversion.",
     IC, "weights, domains, points, output matrices: all; widths: all; graphs: the topologies of contracts/c17.py plus every tree of at most four calls of two kinds of layers (longer ones follow the same recursion); the four backward methods, slopes, options enumerated",
     "tests compare a few cloned models with sampled outputs; chaining the wrong bounds is only visible at particular points",
     ["models/convert.py", "models/backward_cloning.py", "models/crown.py", "models/utils.py", "backward_layers/convert.py", "backward_layers/core.py"],
     ["clone", "convert", "convert_backward", "crown_model", "crown_", "get_input_nodes", "retrieve_layer", "to_backward"])

prop("C18", "Scores of boxes: bounds asked with arrays enclose the model on each box",
     "For a model (Keras, or converted by any method) and one box per sample, the upper, lower and range scores returned as arrays are above and below every value the model takes on the box of that sample, output by output, whatever the batch size used for the computation. Splitting each box into sub-boxes keeps the scores valid for the whole box and never mixes samples or outputs.",
     IC, "all boxes, weights, numbers of outputs and samples; box arrays of rank 1 to 3; the methods, modes and kinds of outputs enumerated; numbers of sub-boxes and batch sizes enumerated",
     "tests compare with sampled values for one small model; the reshapes between samples, sub-boxes and outputs must be right for every size",
     ["wrapper.py", "models/models.py"], ["get_upper_box", "get_lower_box", "get_range_box", "DecomonModel.predict_on_single_batch_np", "clone"])
prop("C19", "Scores of balls, change of domain: bounds follow the domain asked",
     "For a ball of any radius and norm around each sample, the range, upper and lower scores enclose every value of the model on the ball. After the domain of a converted model is changed, all its bounds hold on the new domain, whatever the domain it was converted with; a score that changes the domain puts the former one back.",
     IC, "all centres, radii, weights; norms 1, 2 and infinity; methods and kinds of outputs enumerated; pairs of former and new domains enumerated",
     "tests use one radius and one norm, the one the model was converted with",
     ["wrapper.py", "models/models.py", "core.py"], ["get_range_noise", "get_upper_noise", "get_lower_noise", "DecomonModel.set_domain"])
prop("C20", "Adversarial scores: above every margin of the admitted pairs of labels",
     "The adversarial score of a box (or ball) is above the margin target output minus source output at each of its points, for every source label and every admitted target label (by default all but the sources), so that a negative score proves robustness; only admitted pairs count, however labels are given (number, list of indices, mask). The converse check returns a margin that some point of the box reaches or exceeds.",
     IC, "all boxes, balls, weights, numbers of outputs and samples; any mask; the forms of labels, methods, modes, sub-boxes and batch sizes enumerated; also models converted with bounds on their outputs",
     "tests check one mask on one toy network; a missing pair of labels is silent",
     ["wrapper.py"], ["get_adv_box", "check_adv_box", "get_adv_noise", "prepare_labels"])
prop("C21", "Splitting boxes: the sub-boxes cover the box, the refined score is valid",
     "Splitting boxes gives for each sample the announced number of sub-boxes, inside the box, without overlap, and every point of the box lies in one of them. The score refined by splitting is a valid score for the whole box: above (below) the model, or the margins, on all of it, whichever axis or sub-box is split, chosen at random or by size, with the labels of the sample kept for each of its sub-boxes.",
     IC, "all corners, every possible sequence of choices of axis and sub-box; array shapes and numbers of sub-boxes enumerated",
     "tests look at the result for one random sequence of splits and compare with sampled values",
     ["wrapper.py"], ["refine_boxes", "refine_box"])
prop("C22", "Tuning coefficients: every admissible value is sound; freezing and resetting",
     "A model converted for tuning has one coefficient per activation bound. Whatever vector an optimizer proposes, its projection lies in [0, 1], and for every such value the bounds enclose the activation. Once the weights are frozen only the coefficients are trainable, so tuning cannot alter the certified network; once the coefficients are frozen only the weights are; unfreezing undoes it, in any order; a reset gives back the initial coefficients and touches nothing else.",
     IC, "all proposed vectors and sizes; activations, slopes, modes, conversion methods and a sequence of freezing operations enumerated",
     "no test tunes, freezes or resets a model",
     ["layers/decomon_layers.py", "layers/utils.py", "backward_layers/backward_layers.py", "models/models.py"],
     ["ClipAlpha.__call__", "DecomonActivation.build", "DecomonActivation.freeze_alpha", "DecomonModel.freeze_weights", "BackwardActivation.build", "BackwardActivation.freeze_alpha", "DecomonModel.reset_finetuning"])

prop("C23", "Training losses: at least the worst value over the domain",
     "The losses and loss models built on a converted model are, for the labels given, at least the worst value that the quantity they stand for takes at points of the domain of each sample, averaged over samples where announced: distance of the outputs above or below a reference, margin of the wrong labels over the right ones (clipped, through a sigmoid, or after a softmax as asked), cross entropy, asymptotic margin. A radius announced for a label is certified: inside the box shrunk by it no other label gets above it. The bounds on the cross entropy of a bounded tensor enclose it. The domain is the one of the model.",
     IC, "all weights, domains, points, labels, references, numbers of samples and outputs (2 and 3 labels where the code loops over labels); boxes and balls, modes, options enumerated",
     "tests check that the models and losses can be built; a loss below the worst case trains and reports robustness that does not exist",
     ["metrics/loss.py", "metrics/utils.py"],
     ["get_model", "get_upper_loss", "get_lower_loss", "get_adv_loss", "DecomonLossFusion.call", "DecomonRadiusRobust.call", "build_crossentropy_model", "build_asymptotic_crossentropy_model", "build_radius_robust_model", "categorical_cross_entropy"])
prop("C24", "Formal certificates: the score of a certificate model is a valid one",
     "The adversarial certificate model returns, for each sample and its 0/1 labels, a score at least the margin of every other label over a right label, everywhere in the domain: a negative score proves robustness. The converse check model returns a margin that is reached or exceeded in the domain by an admitted pair of labels. The upper certificate is at least the sum of the outputs weighted by non-negative weights, everywhere in the domain.",
     IC, "all weights, domains, points, labels, numbers of samples and outputs; boxes and balls and the three modes enumerated; outputs below 1e5 in magnitude (labels are masked with 1e6)",
     "tests build these models on one toy network and do not compare the scores with the network",
     ["metrics/metric.py"],
     ["build_formal_adv_model", "build_formal_adv_check_model", "build_formal_upper_model", "AdversarialScore.call", "AdversarialCheck.call", "UpperScore.call"])

prop("C25", "Point domains: every bound equals the value",
     "When the domain of a sample is a single point (box with equal corners, ball of radius zero), conversion loses nothing: the upper and lower constants of every layer, operator and converted model equal the output of the Keras model there, and so do the affine bounds evaluated at that point. Exceptions: the affine lower bound of softplus, which is not tangent, and the normalize option of Dot.",
     IC, "all points, weights and sizes; layers, operators, activations, slopes, coefficients and modes enumerated as in the properties on soundness",
     "tests ask for bounds that are valid, not equal to the value; a bound that is sound and needlessly loose passes them",
     ["layers/utils.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "layers/maxpooling.py", "utils.py", "backward_layers/activations.py", "backward_layers/utils.py"],
     ["maximum", "minus", "add", "max_", "multiply", "get_linear_hull_relu", "get_linear_hull_s_shape", "DecomonMaxPooling2D.call", "backward_relu_", "merge_with_previous"])

prop("C26", "Tuned bounds on a box: valid, no looser, and the model is left as it was",
     "Tuning the coefficients of a converted model on boxes returns, per sample and output, an upper (lower) bound of the model on the box of that sample, whatever the optimizer does, for every batch size and number of sub-boxes; it is never looser than the bound obtained without tuning. Weights are frozen while tuning, so the certified network is the one of the user, and the coefficients have their initial values at the end.",
     IC, "all boxes, weights, results of the optimizer and sizes; numbers of samples (1 to 5), batch sizes and numbers of sub-boxes (2 to 4) enumerated",
     "no test calls these functions (they raised on the supported version of Keras)",
     ["wrapper_with_tuning.py"], ["get_upper_box_tuning", "get_lower_box_tuning"])

prop("C27", "Announced shapes: symbolic outputs have the shapes of the computed ones",
     "The shapes a forward or backward layer announces for symbolic inputs (known or unknown batch size) are those of the tensors it computes from inputs of these shapes, in every mode, with and without difference-of-convex tensors, including merged, reshaped, pooled and convolved outputs; so are the symbolic outputs of a converted model.",
     IC, "all sizes of all axes; layers, modes, ranks, axes, paddings and data formats enumerated; converted models at run time only (bounded)",
     "tests convert a few models of fixed sizes, where a wrong announcement can coincide with the right one",
     ["layers/core.py", "layers/decomon_merge_layers.py", "backward_layers/core.py", "core.py", "keras_utils.py"],
     ["DecomonLayer.compute_output_shape", "DecomonMerge.compute_output_shape", "BackwardLayer.compute_output_shape", "InputsOutputsSpec.get_fullinputshapes_from_inputshapesformode", "InputsOutputsSpec.extract_inputshapesformode_from_fullinputshapes"])

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": m} for m in p["mech"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {})}}) + "\n")
    na = {n["property"] for n in NA}
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": NA}
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in na:
            continue
        tech = "contract-based deductive verification: contracts on the real functions, executed symbolically (symbolic sizes and values), obligations discharged by normal form, z3 and cvc5"
        m["checks"].append({
            "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "technique": tech if p["level"] == "proof" else "contracts evaluated at run time on the real code (bounded stand-in)",
            "level": p["level"], "level_note": (NOTE if p["level"] == "proof" else "") + p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
