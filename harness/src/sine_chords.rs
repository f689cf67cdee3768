/// (sin at j * TAU/64, slope of the chord to the next), f64-computed
const CHORD: [(f32, f32); 64] = [
    (0.000000000, 0.998394393),
    (0.098017140, 0.988779309),
    (0.195090322, 0.969641740),
    (0.290284677, 0.941165991),
    (0.382683432, 0.903626299),
    (0.471396737, 0.857384192),
    (0.555570233, 0.802885006),
    (0.634393284, 0.740653599),
    (0.707106781, 0.671289292),
    (0.773010453, 0.595460103),
    (0.831469612, 0.513896308),
    (0.881921264, 0.427383410),
    (0.923879533, 0.336754576),
    (0.956940336, 0.242882612),
    (0.980785280, 0.146671555),
    (0.995184727, 0.049047971),
    (1.000000000, -0.049047971),
    (0.995184727, -0.146671555),
    (0.980785280, -0.242882612),
    (0.956940336, -0.336754576),
    (0.923879533, -0.427383410),
    (0.881921264, -0.513896308),
    (0.831469612, -0.595460103),
    (0.773010453, -0.671289292),
    (0.707106781, -0.740653599),
    (0.634393284, -0.802885006),
    (0.555570233, -0.857384192),
    (0.471396737, -0.903626299),
    (0.382683432, -0.941165991),
    (0.290284677, -0.969641740),
    (0.195090322, -0.988779309),
    (0.098017140, -0.998394393),
    (0.000000000, -0.998394393),
    (-0.098017140, -0.988779309),
    (-0.195090322, -0.969641740),
    (-0.290284677, -0.941165991),
    (-0.382683432, -0.903626299),
    (-0.471396737, -0.857384192),
    (-0.555570233, -0.802885006),
    (-0.634393284, -0.740653599),
    (-0.707106781, -0.671289292),
    (-0.773010453, -0.595460103),
    (-0.831469612, -0.513896308),
    (-0.881921264, -0.427383410),
    (-0.923879533, -0.336754576),
    (-0.956940336, -0.242882612),
    (-0.980785280, -0.146671555),
    (-0.995184727, -0.049047971),
    (-1.000000000, 0.049047971),
    (-0.995184727, 0.146671555),
    (-0.980785280, 0.242882612),
    (-0.956940336, 0.336754576),
    (-0.923879533, 0.427383410),
    (-0.881921264, 0.513896308),
    (-0.831469612, 0.595460103),
    (-0.773010453, 0.671289292),
    (-0.707106781, 0.740653599),
    (-0.634393284, 0.802885006),
    (-0.555570233, 0.857384192),
    (-0.471396737, 0.903626299),
    (-0.382683432, 0.941165991),
    (-0.290284677, 0.969641740),
    (-0.195090322, 0.988779309),
    (-0.098017140, 0.998394393),
];
/// 32768 * sin(j * pi/256) in Q5, j = 0..=128 (a quarter wave), f64-computed and rounded
const QUARTER: [i32; 129] = [
    0, 12868, 25733, 38595, 51451, 64299, 77138, 89965, 102778, 115576,
    128357, 141118, 153858, 166575, 179267, 191931, 204567, 217172, 229744, 242282,
    254783, 267246, 279669, 292049, 304386, 316676, 328919, 341113, 353255, 365343,
    377377, 389354, 401273, 413131, 424926, 436658, 448324, 459922, 471452, 482910,
    494295, 505606, 516841, 527998, 539076, 550072, 560986, 571815, 582558, 593213,
    603779, 614254, 624636, 634924, 645117, 655213, 665210, 675106, 684901, 694593,
    704181, 713662, 723036, 732301, 741455, 750498, 759428, 768244, 776944, 785526,
    793991, 802336, 810560, 818662, 826641, 834495, 842224, 849826, 857300, 864645,
    871859, 878942, 885893, 892711, 899394, 905941, 912352, 918626, 924761, 930758,
    936614, 942328, 947901, 953332, 958618, 963761, 968758, 973609, 978314, 982871,
    987281, 991541, 995652, 999614, 1003425, 1007084, 1010592, 1013948, 1017151, 1020201,
    1023098, 1025840, 1028428, 1030861, 1033138, 1035261, 1037227, 1039037, 1040690, 1042187,
    1043527, 1044709, 1045735, 1046603, 1047313, 1047865, 1048260, 1048497, 1048576,
];
