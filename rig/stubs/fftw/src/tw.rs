//! cos and sin of -2 pi t/n in double precision (generated)
const T3: [(f64, f64); 3] = [(1.0, 0.0), (-0.5, -0.8660254037844387), (-0.5, 0.8660254037844384)];
const T5: [(f64, f64); 5] = [(1.0, 0.0), (0.30901699437494745, -0.9510565162951535), (-0.8090169943749473, -0.5877852522924732), (-0.8090169943749476, 0.587785252292473), (0.30901699437494723, 0.9510565162951536)];
const T6: [(f64, f64); 6] = [(1.0, 0.0), (0.5, -0.8660254037844386), (-0.5, -0.8660254037844387), (-1.0, 0.0), (-0.5, 0.8660254037844384), (0.5, 0.8660254037844386)];
const T7: [(f64, f64); 7] = [(1.0, 0.0), (0.6234898018587336, -0.7818314824680298), (-0.22252093395631434, -0.9749279121818236), (-0.900968867902419, -0.43388373911755823), (-0.9009688679024191, 0.433883739117558), (-0.2225209339563146, 0.9749279121818236), (0.6234898018587334, 0.7818314824680299)];
const T8: [(f64, f64); 8] = [(1.0, 0.0), (0.7071067811865476, -0.7071067811865475), (0.0, -1.0), (-0.7071067811865475, -0.7071067811865476), (-1.0, 0.0), (-0.7071067811865477, 0.7071067811865475), (0.0, 1.0), (0.7071067811865474, 0.7071067811865477)];
const T9: [(f64, f64); 9] = [(1.0, 0.0), (0.766044443118978, -0.6427876096865393), (0.17364817766693041, -0.984807753012208), (-0.5, -0.8660254037844387), (-0.9396926207859083, -0.3420201433256689), (-0.9396926207859084, 0.34202014332566866), (-0.5, 0.8660254037844384), (0.17364817766692997, 0.9848077530122081), (0.7660444431189778, 0.6427876096865396)];
const T10: [(f64, f64); 10] = [(1.0, 0.0), (0.8090169943749475, -0.5877852522924731), (0.30901699437494745, -0.9510565162951535), (-0.30901699437494734, -0.9510565162951536), (-0.8090169943749473, -0.5877852522924732), (-1.0, 0.0), (-0.8090169943749476, 0.587785252292473), (-0.30901699437494756, 0.9510565162951535), (0.30901699437494723, 0.9510565162951536), (0.8090169943749473, 0.5877852522924734)];
const T11: [(f64, f64); 11] = [(1.0, 0.0), (0.8412535328311812, -0.5406408174555976), (0.41541501300188644, -0.9096319953545183), (-0.142314838273285, -0.9898214418809328), (-0.654860733945285, -0.7557495743542583), (-0.9594929736144974, -0.28173255684142967), (-0.9594929736144975, 0.2817325568414294), (-0.6548607339452852, 0.7557495743542582), (-0.14231483827328523, 0.9898214418809327), (0.41541501300188605, 0.9096319953545186), (0.8412535328311812, 0.5406408174555974)];
const T12: [(f64, f64); 12] = [(1.0, 0.0), (0.8660254037844387, -0.5), (0.5, -0.8660254037844386), (0.0, -1.0), (-0.5, -0.8660254037844387), (-0.8660254037844387, -0.5), (-1.0, 0.0), (-0.8660254037844388, 0.5), (-0.5, 0.8660254037844384), (0.0, 1.0), (0.5, 0.8660254037844386), (0.8660254037844384, 0.5)];
const T13: [(f64, f64); 13] = [(1.0, 0.0), (0.8854560256532099, -0.4647231720437685), (0.5680647467311559, -0.8229838658936564), (0.120536680255323, -0.992708874098054), (-0.35460488704253545, -0.9350162426854148), (-0.7485107481711012, -0.6631226582407952), (-0.970941817426052, -0.23931566428755768), (-0.9709418174260521, 0.23931566428755743), (-0.7485107481711013, 0.663122658240795), (-0.3546048870425359, 0.9350162426854147), (0.1205366802553232, 0.992708874098054), (0.5680647467311548, 0.822983865893657), (0.88545602565321, 0.4647231720437684)];
const T14: [(f64, f64); 14] = [(1.0, 0.0), (0.9009688679024191, -0.4338837391175581), (0.6234898018587336, -0.7818314824680298), (0.22252093395631445, -0.9749279121818236), (-0.22252093395631434, -0.9749279121818236), (-0.6234898018587335, -0.7818314824680299), (-0.900968867902419, -0.43388373911755823), (-1.0, 0.0), (-0.9009688679024191, 0.433883739117558), (-0.6234898018587337, 0.7818314824680297), (-0.2225209339563146, 0.9749279121818236), (0.22252093395631334, 0.9749279121818238), (0.6234898018587334, 0.7818314824680299), (0.9009688679024194, 0.4338837391175575)];
const T15: [(f64, f64); 15] = [(1.0, 0.0), (0.9135454576426009, -0.40673664307580015), (0.6691306063588582, -0.7431448254773941), (0.30901699437494745, -0.9510565162951535), (-0.10452846326765333, -0.9945218953682734), (-0.5, -0.8660254037844387), (-0.8090169943749473, -0.5877852522924732), (-0.9781476007338057, -0.20791169081775931), (-0.9781476007338057, 0.20791169081775907), (-0.8090169943749476, 0.587785252292473), (-0.5, 0.8660254037844384), (-0.10452846326765423, 0.9945218953682733), (0.30901699437494723, 0.9510565162951536), (0.6691306063588585, 0.743144825477394), (0.913545457642601, 0.40673664307580015)];
const T16: [(f64, f64); 16] = [(1.0, 0.0), (0.9238795325112867, -0.3826834323650898), (0.7071067811865476, -0.7071067811865475), (0.38268343236508984, -0.9238795325112867), (0.0, -1.0), (-0.3826834323650897, -0.9238795325112867), (-0.7071067811865475, -0.7071067811865476), (-0.9238795325112867, -0.3826834323650899), (-1.0, 0.0), (-0.9238795325112868, 0.38268343236508967), (-0.7071067811865477, 0.7071067811865475), (-0.38268343236509034, 0.9238795325112865), (0.0, 1.0), (0.38268343236509, 0.9238795325112866), (0.7071067811865474, 0.7071067811865477), (0.9238795325112865, 0.3826834323650904)];
pub fn table(t: usize, n: usize) -> Option<(f64, f64)> {
    Some(match n {
        3 => T3[t],
        5 => T5[t],
        6 => T6[t],
        7 => T7[t],
        8 => T8[t],
        9 => T9[t],
        10 => T10[t],
        11 => T11[t],
        12 => T12[t],
        13 => T13[t],
        14 => T14[t],
        15 => T15[t],
        16 => T16[t],
        _ => return None,
    })
}
