"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="groco/groups/group.py";W="groco/groups/wallpaper_groups.py";S="groco/groups/space_groups.py"
GT="groco/layers/group_transforms.py";PD="groco/layers/padding.py";PL="groco/layers/pooling.py"
C2="groco/layers/conv2d.py";C2T="groco/layers/conv2d_transpose.py";C3="groco/layers/conv3d.py";C3T="groco/layers/conv3d_transpose.py"
TM="groco/utils/tensor_manips.py";MI="groco/utils/misc.py";EQ="groco/utils/equivariance.py"
CONV=[C2,C2T,C3,C3T]

p("C01","Every provided or induced group satisfies the group axioms",
 "For every group the library provides, and for every group constructed by restricting a provided group to one of its subgroups, the composition and inverse tables are those of a group: closed, associative, element 0 the two-sided identity, and every element's listed inverse its two-sided inverse. An induced group's tables, subgroups and cosets are the parent's, renumbered in the order in which the parent lists the subgroup's elements.",
 ["inputs","configurations"],"all elements (pairs, triples) of all 11 provided groups; all subgroups of P4M and Oh, and chains of restrictions, as induced groups",
 "Tests check one-sided inverses and compatibility with the action for the 11 provided groups only, on random signals; induced groups other than O, D4h, D4 are never built, and associativity is never checked.",
 [G,W,S],[("parent-induced tables",G+": Group._compute_*, _external_to_internal_indices"),("literal tables",W+", "+S)],["Group.composition","Group.inverses"])
p("C02","Subgroup lists are subgroups and coset lists are exact transversals",
 "For every provided group and every subgroup it lists, the listed elements contain the identity, are closed under composition and inverse, and, in the listed order, compose exactly like the elements of the provided group of that name. The listed coset representatives include the identity, and every element of the group is a subgroup element composed with a representative in exactly one way.",
 ["inputs","configurations"],"all (group, listed subgroup) pairs and all pairs/elements within them",
 "The closure test takes its 'any' over the wrong axis and so does not test closure; the order of the listing against the named group's own table is only sampled through random signals.",
 [G,W,S],[("subgroup and coset tables",W+", "+S),("induced subgroups/cosets",G)],["Group.subgroup","Group.cosets"])
p("C03","Acting on a grid signal is the documented point-group transformation",
 "Acting with a group (or with one of its subgroups) on a signal on a grid, of any size the group's symmetries map to itself and with any placement of the distinct non-negative spatial axes and of the new group axis, returns for each acting element the input with its spatial axes rotated/reflected by that element: every input entry appears exactly once, other axes are untouched, and element 0 leaves the signal unchanged. The transformations compose as the group's composition table says, distinct elements transform differently, and for each group they are exactly its documented symmetries (e.g. all rotations of the square, the depth-preserving symmetries of a cuboid).",
 ["inputs","configurations"],"all groups, acting subgroups, signal sizes (symbolic), ranks and axis placements",
 "Tests use one or two axis layouts and one square/cubic size per group; rectangular or cuboid grids, other axis orders and ranks are not sampled.",
 [G,W,S],[("per-group actions",W+": *_action; "+S+": Oh_action"),("selection of acting elements",G+": Group._action_on_grid")],["Group.action(domain_group=None)"])
p("C04","Acting on a group signal transforms position and group index together",
 "Acting with element g on a signal on a group gives at position x and group element h the input value at the g-inverse-transformed position and at group element g^-1 h, for any sizes and any placement of spatial, group and new axes. When only a subgroup acts, the result is the corresponding slice of the full action; when the signal lives on a subgroup it is treated as zero at all other elements and the result is given on that subgroup's elements.",
 ["inputs","configurations"],"all groups, (acting, domain) subgroup pairs, sizes (symbolic) and axis placements",
 "Tests sample square sizes with the group axis right after the spatial axes; acting and domain subgroups that differ, or other axis placements, are only shape-checked.",
 [G,TM],[("action on group",G+": Group._action_on_group, _composition_flat_indices, upsample"),("axis merging",TM)],["Group.action(domain_group=...)"])
p("C05","Upsampling to a supergroup is zero extension",
 "Upsampling a signal from a subgroup to the group places each subgroup element's slice, unchanged, at that element's index in the group and zeros at all other indices, for every size, dtype and position of the group axis. Taking the subgroup's entries back gives the original signal.",
 ["inputs","configurations"],"all (group, subgroup) pairs, ranks, group-axis positions and sizes (symbolic)",
 "The round trip is tested for wallpaper groups only, with one rank, axis position and size; that the rest is zero is never asserted.",
 [G],[("zero filling",G+": Group.upsample")],["Group.upsample"])
p("C06","Axis split, merge and index utilities rearrange without loss",
 "Merging one axis into another places entry (i, j) at index i * (size of target) + j with the moved axis as the slow index and keeps all other axes in order; splitting an axis is its exact inverse for adjacent axes; moving an axis to the left of another keeps the order of the rest. The shape-only versions agree with the shapes of the tensors (passing an unknown batch size through), and gathering a flattened tensor with its index tensor reproduces the tensor.",
 ["inputs"],"all tensors of rank up to 8, all axis pairs (negative indices included where the reading is unambiguous), symbolic sizes",
 "These helpers have no tests of their own and are only exercised with the axis combinations the layers use.",
 [TM],[("split/merge/move/index helpers",TM)],["groco.utils.merge_axes","groco.utils.split_axes","groco.utils.get_index_tensor"])
p("C07","A convolution's filters are the group orbit of one shared kernel",
 "A group convolution layer owns exactly the kernel and bias that the plain Keras layer of the same rank, kernel size and filters would own for the input with its group axis folded into the channels. The filter bank it applies consists, for each acting group element g, filter and input channel, of the owned kernel transformed by g (spatially, and on a group-valued input also in the group index by left translation, restricted to or zero-extended from the subgroup on which a signal lives), and every copy of a filter gets that filter's bias.",
 ["inputs","configurations"],"all groups and subgroups, lifting and group-to-group, regular and transposed, 2D and 3D; kernel sizes, channels and filters symbolic",
 "Tests only observe equivariance of outputs for kernel size 3, 2 channels and 4 filters; a filter bank that is equivariant but not the kernel's orbit (permuted channels, dropped weights) passes.",
 [GT,G,TM],[("precomputed gather indices",GT+": _compute_transformed_kernel_indices, transform_kernel"),("bias repetition",GT+": _compute_repeated_bias_indices, repeat_bias")],["kernel seen by the Keras convolution"])
p("C08","A group convolution computes the plain convolution with those filters",
 "The output of a group convolution layer (regular or transposed, 2D or 3D) at output position y, acting element g and filter f equals the plain Keras convolution of the padded input, its group axis folded into the channels, with filter f transformed by g, plus that filter's bias, followed by the activation. In channels_last layout the axes are (batch, spatial, group, filters), and with data_format channels_first (batch, filters, spatial, group).",
 ["inputs","configurations"],"all groups/subgroups, lifting and group-valued inputs, with and without bias and activation, strides, dilation, padding options, both data formats; all sizes symbolic",
 "Tests compare the layer with itself only (equivariance) and check shapes; output values are never compared to an independent convolution.",
 CONV+[GT,MI,PD],[("call pipeline",GT+": prepare_call, restore_group_axis"),("layer call",C2+": GroupConv2D.call")],["layer output"])
p("C09","Regular group convolutions are equivariant",
 "For every 2D or 3D group convolution that accepts its configuration without opting out of equivariance, transforming the input by an element of the (sub)group of the output and applying the layer equals applying the layer and transforming the output. This holds for every kernel, bias, elementwise activation, dilation, stride, padding option, data format, and input size compatible with the group, for lifting and group-valued inputs, and also for inputs of a different spatial size than the first one the layer saw.",
 ["inputs","configurations","histories"],"all groups/subgroups and layer options (grouped convolutions are a known finding); kernel, input, stride and channel sizes symbolic; sizes before and after the build",
 "Tests use kernel size 3, input size 3, odd strides with one group, and channels_first only where no padding is needed.",
 [C2,C3,GT,PD,G],[("transformed kernel",GT),("origin-preserving padding",PD)],["layer output"])
p("C10","Transposed group convolutions are equivariant in their supported range",
 "For every 2D or 3D transposed group convolution with stride 1, or with valid padding and a stride of at most the kernel size, that accepts its configuration without opting out, transforming the input by an element of the (sub)group of the input and applying the layer equals applying the layer and transforming its output, with default dilation and output padding. This holds for every kernel, bias, elementwise activation, data format, kernel size and input size compatible with the group, and for upsampling from a subgroup to the group.",
 ["inputs","configurations"],"all groups/subgroups; kernel, input and channel sizes symbolic; stride 1 with every padding option, and strides up to the kernel size with valid padding",
 "Tests use kernel size 3 and stride 1 or 3 only.",
 [C2T,C3T,GT,PD,G],[("transformed kernel with swapped axes",GT),("padding",PD)],["layer output"])
p("C11","Group pooling aggregates exactly its cosets and windows",
 "Group max/average pooling (1D, 2D, 3D) returns at output position y and subgroup element h the maximum (mean) of the padded input over the pooling window at y, and over all group elements that are h composed with one of the listed coset representatives of that subgroup, with Keras pooling's window conventions and default stride equal to the pool size. Each channel and batch entry is pooled separately, and without a subgroup each group element is kept separate.",
 ["inputs","configurations"],"all groups/subgroups, max and average, 1D/2D/3D, both data formats, default and explicit strides; sizes symbolic",
 "Only max pooling of size 2 and stride 2 is tested, on equivariance and shape; average and 1D pooling are not tested at all.",
 [PL,GT],[("coset indices",GT+": build_pool"),("coset aggregation",GT+": subgroup_pooling"),("window pooling",PL)],["layer output"])
p("C12","Group pooling is equivariant",
 "For every 2D or 3D group max/average pooling layer that accepts its configuration without opting out of equivariance, transforming a group-valued input by an element of the output subgroup and pooling equals pooling and then transforming. This holds for every pool size, stride (including the default), padding option, data format, and input size compatible with the group, also for inputs of a different spatial size than the first one the layer saw.",
 ["inputs","configurations","histories"],"all groups/subgroups; pool, stride and input sizes symbolic; sizes before and after the build",
 "Tests use max pooling with size 2, stride 2 on an 8-pixel grid, where no extra padding is ever needed.",
 [PL,GT,PD,G],[("coset pooling",GT),("padding",PD)],["layer output"])
p("C13","Global group pooling is the invariant aggregate of the whole signal",
 "Global group max/average pooling (1D, 2D, 3D) returns per batch entry and channel the maximum (mean) over all positions and group elements, in both data formats, with the pooled axes kept at size 1 when keepdims is set. The result is unchanged when the input is transformed by any group element.",
 ["inputs","configurations"],"all groups, max and average, 1D/2D/3D, both data formats, keepdims; sizes symbolic",
 "Only the output shape of max pooling is tested, for one size and layout.",
 [PL],[("group then grid aggregation",PL+": GlobalGroupPooling")],["layer output"])
p("C14","Equivariant padding aligns the grid symmetrically and minimally",
 "With padding valid_equiv or same_equiv a regular (not transposed) layer pads only the spatial axes, with zeros, such that together with the built-in padding the totals on both sides of each axis are equal and the last window ends at the last padded entry, and the total is the smallest that does so and is at least the built-in one. If and only if no such padding exists it raises a ValueError.",
 ["inputs","configurations"],"all input sizes, kernel/pool sizes, strides, dilation rates, 1 to 3 dimensions, both data formats, symbolic",
 "Tests check six sizes with one kernel size and stride.",
 [PD],[("padding arithmetic",PD+": compute_built_in_padding, compute_extra_padding, split_padding")],["EquivariantPadding output","ValueError"])
p("C15","Equivariance-breaking settings are rejected unless explicitly allowed",
 "A regular convolution or pooling layer with padding valid or same raises a ValueError when built on a size for which that padding would break the alignment of the output grid with the input grid, and accepts it otherwise, adding no padding of its own. With the explicit opt-out these paddings are always accepted and never padded further, and unknown padding options or non-strings are rejected with a TypeError.",
 ["inputs","configurations"],"all sizes, kernel/pool sizes and strides, symbolic; all padding options with and without the opt-out",
 "No test uses padding valid/same or the opt-out, or checks that anything is rejected.",
 [PD,GT],[("rejection",PD+": build, format_padding_option")],["ValueError/TypeError at build"])
p("C16","Reported output shapes are the actual output shapes",
 "For every group convolution layer the output shape computed without data equals the shape of the actual output for every input of that shape, whether or not it is the shape the layer was built with, including subgroups, extra padding, unknown batch size and both data formats. The actual shape has the documented axis layout, with the output subgroup's order (for transposed layers the group's) in the group axis and the filters in the channel axis.",
 ["inputs","configurations"],"all groups/subgroups, lifting and group-valued, regular and transposed, strides, padding options, formats; sizes symbolic",
 "Shape tests look at actual outputs for one size only; the static shape inference is never compared to them.",
 CONV+[GT],[("shape inference",GT+": correct_output_shape"),("override",C2+": compute_output_shape")],["compute_output_shape"])
p("C17","Calling a layer leaves it unchanged and uses its current weights",
 "Calling a group layer, whether the call succeeds or raises, leaves the layer's weights, filter count and configuration as they were, so after any history of calls the output depends only on the current weights and the current input. In particular repeating a call gives the same result, and replacing the weights takes effect at the next call.",
 ["histories","inputs"],"any sequence of calls, failing calls and weight updates; by the frame condition of a single call, for all inputs and weights",
 "Tests call a layer a few times successfully and never look at its attributes, nor call it in a way that fails.",
 CONV+[MI,GT,PL,PD],[("backup and restore",MI+": backup_and_restore")],["layer attributes after call"],[("kernel, bias, filters","replaced during a call, restored after it",C2+": call")])
p("C18","The two data formats compute the same function",
 "For every group convolution, pooling and global pooling layer, the channels_first layer with the same weights applied to the input with its channel axis moved first gives the channels_last output with its channel axis moved first. An unset data format means Keras's configured default.",
 ["inputs","configurations"],"all layer kinds, groups/subgroups, strides and paddings; sizes and values symbolic",
 "channels_first is tested only for equivariance with stride 1, size 3, where no padding is needed, and not at all for pooling.",
 CONV+[GT,PL,PD],[("axis bookkeeping",GT),("padding axes",PD+": split_padding")],["layer output"])
p("C19","A layer rebuilt from its configuration is the same layer",
 "For every group convolution and pooling layer, the layer constructed from its reported configuration has the same group, subgroup, padding and opt-out settings and all settings that the plain Keras layer reports, and given the same weights computes the same function. The configuration consists of plain serializable values.",
 ["configurations"],"all layer classes, groups given by name or object, subgroups, padding options and opt-out; sizes and values symbolic",
 "No test ever calls get_config or from_config.",
 CONV+[GT,PL,PD],[("configuration",GT+": get_config; "+PD+": get_config")],["get_config/from_config"])
p("C20","The equivariance checker reports exactly the worst violation",
 "For any callable layer, signal, group and choice of acting, domain and target subgroups, the checker returns the maximum over acting elements and output entries of the absolute difference between layer-of-transformed-input and transformed-layer-output, so it is zero exactly when the layer is equivariant on that signal. It raises when the signal or the layer's output does not have the stated subgroup's order in the group axis.",
 ["inputs","programs"],"all layers (uninterpreted batchwise functions), signals, groups and subgroup choices; sizes symbolic",
 "It is the tests' own oracle and is never tested itself: a checker that underreports would make the equivariance tests vacuous.",
 [EQ,G],[("checker",EQ)],["check_equivariance"])
p("C21","Groups can be named or passed and the named layers use their group",
 "Constructing a layer with a group's name or with the group object gives the same layer, omitting the subgroup means the whole group, and each convenience constructor (P4MConv2D, ..., D4Conv3D) is the convolution of its rank with exactly the group it names. Every name in the group registries maps to the group of that name, with the documented order.",
 ["configurations"],"all 11 groups, all layer classes and convenience constructors; weights and inputs symbolic",
 "No test passes a group by name or uses a convenience constructor.",
 [C2,C3,GT,"groco/groups/__init__.py",W,S],[("group lookup",GT+": __init__"),("partials",C2+", "+C3)],["layer.group_transforms.group","layer output"])
p("C22","Batch entries are processed independently",
 "For every group convolution, pooling, global pooling and padding layer, each batch entry of the output depends only on the same batch entry of the input, in the same way for every entry and whatever the batch size (also one not known when the layer is built). The number and order of batch entries is kept.",
 ["inputs","configurations"],"all layers, groups/subgroups, formats, batch sizes (symbolic, or unknown at build) and input sizes",
 "Tests use batch size 1 or 2 and never compare batch entries.",
 CONV+[GT,PL,PD,TM],[("axis merging never touches axis 0",TM+", "+GT)],["layer output"])
p("C23","Concurrent calls of one layer do not interfere",
 "Two threads calling the same group convolution layer at the same time each obtain the output they would obtain alone, and the layer is left unchanged.",
 ["schedules"],"all interleavings of two or more calls",
 "Tests are single-threaded.",CONV+[MI],[("attributes are swapped during a call",MI+": backup_and_restore")])
p("C24","Floating-point equivariance error stays at rounding level",
 "The numerical difference between the two sides of each equivariance identity is bounded by rounding error, i.e. a small multiple of machine precision times the magnitudes involved, for every input and layer size.",
 ["inputs"],"all inputs and sizes in float32",
 "Tests check one absolute tolerance on standard-normal inputs.",CONV+[PL],[("evaluation order of the backend's convolution","external")])
p("C25","All Keras backends compute the same function",
 "With equal weights and inputs, every layer computes the same function, up to rounding, under the TensorFlow, PyTorch and JAX backends.",
 ["configurations"],"three backends, all layers and inputs",
 "Tests run under one backend at a time and compare nothing across backends.",CONV+[PL,PD,G],[("backend-agnostic ops","everywhere")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
