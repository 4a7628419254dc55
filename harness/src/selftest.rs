//! The oracle's own check: the reference model must reproduce the published
//! verification ephemerides (AIAA 2006-6753 test cases and Spacetrack Report 3).

use crate::gen::{days_from_1970, jd_midnight};
use crate::oracle::{dist, norm};
use crate::refmodel::*;
use std::f64::consts::PI;

type Case = (&'static str, &'static str, &'static [(f64, [f64; 6])]);

const CASES: &[Case] = &[
    ("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
     "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667",
     &[(0.0, [7022.46529266, -1400.08296755, 0.03995155, 1.893841015, 6.405893759, 4.534807250]),
       (360.0, [-7154.03120202, -3783.17682504, -3536.19412294, 4.741887409, -4.151817765, -2.093935425]),
       (720.0, [-7134.59340119, 6531.68641334, 3260.27186483, -4.113793027, -2.911922039, -2.557327851]),
       (1440.0, [-938.55923943, -6268.18748831, -4294.02924751, 7.536105209, -0.427127707, 0.989878080])]),
    ("1 04632U 70093B   04031.91070959 -.00000084  00000-0  10000-3 0  9955",
     "2 04632  11.4628 273.1101 1450506 207.6000 143.9350  1.20231981 44145",
     &[(0.0, [2334.11450085, -41920.44035349, -0.03867437, 2.826321032, -0.065091664, 0.570936053]),
       (-5184.0, [-29020.02587128, 13819.84419063, -5713.33679183, -1.768068390, -3.235371192, -0.395206135]),
       (-5064.0, [-32982.56870101, -11125.54996609, -6803.28472771, 0.617446996, -3.379240041, 0.085954707])]),
    ("1 06251U 62025E   06176.82412014  .00008885  00000-0  12808-3 0  3985",
     "2 06251  58.0579  54.0425 0030035 139.1568 221.1854 15.56387291  6774",
     &[(0.0, [3988.31022699, 5498.96657235, 0.90055879, -3.290032738, 2.357652820, 6.496623475]),
       (120.0, [-3935.69800083, 409.10980837, 5471.33577327, -3.374784183, -6.635211043, -1.942056221])]),
    ("1 08195U 75081A   06176.33215444  .00000099  00000-0  11873-3 0   813",
     "2 08195  64.1586 279.0717 6877146 264.7651  20.2257  2.00491383225656",
     &[(0.0, [2349.89483350, -14785.93811562, 0.02119378, 2.721488096, -3.256811655, 4.498416672]),
       (120.0, [15223.91713658, -17852.95881713, 25280.39558224, 1.079041732, 0.875187372, 2.485682813])]),
    ("1 09880U 77021A   06176.56157475  .00000421  00000-0  10000-3 0  9814",
     "2 09880  64.5968 349.3786 7069051 270.0229  16.3320  2.00813614112380",
     &[(0.0, [13020.06750784, -2449.07193500, 1.15896030, 4.247363935, 1.597178501, 4.956708611])]),
    ("1 09998U 74033F   05148.79417928 -.00000112  00000-0  00000+0 0  4480",
     "2 09998   9.4958 313.1750 0270971 327.5225  30.8097  1.16186785 45878",
     &[(0.0, [25532.98947267, -27244.26327953, -1.11572421, 2.410283885, 2.194175683, 0.545888526])]),
    ("1 11801U          80230.29629788  .01431103  00000-0  14311-1      13",
     "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    13",
     &[(0.0, [7473.37102491, 428.94748312, 5828.74846783, 5.107155391, 6.444680305, -0.186133297]),
       (360.0, [-3305.22148694, 32410.84323331, -24697.16974954, -1.301137319, -1.151315600, -0.283335823])]),
    ("1 14128U 83058A   06176.02844893 -.00000158  00000-0  10000-3 0  9627",
     "2 14128  11.4384  35.2134 0011562  26.4582 333.5652  0.98870114 46093",
     &[(0.0, [34747.57932696, 24502.37114079, -1.32832986, -1.731642662, 2.452772615, 0.608510081])]),
    ("1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    87",
     "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  1058",
     &[(0.0, [2328.96975262, -5995.22051338, 1719.97297192, 2.912073281, -0.983417956, -7.090816210]),
       (120.0, [1020.69234558, 2286.56260634, -6191.55565927, -3.746543902, 6.467532721, 1.827985678])]),
];

/// The reference's own reading of an element set (used only here).
pub fn read(l1: &str, l2: &str) -> Elements {
    let f = |s: &str| s.trim().parse::<f64>().unwrap();
    let yy: i64 = l1[18..20].trim().parse().unwrap();
    let y = if yy < 57 { 2000 + yy } else { 1900 + yy };
    let b = format!("{}0.{}e{}", &l1[53..54], &l1[54..59], &l1[59..61]);
    let d = |s: &str| f(s) / 180.0 * PI;
    Elements {
        jd_epoch: jd_midnight(y, 1, 1) + f(&l1[20..32]) - 1.0,
        bstar: f(&b),
        ecc: f(&format!("0.{}", &l2[26..33])),
        incl: d(&l2[8..16]),
        node: d(&l2[17..25]),
        argp: d(&l2[34..42]),
        ma: d(&l2[43..51]),
        no: f(&l2[52..63]) * 2.0 * PI / 1440.0,
    }
}

pub fn run() -> Result<String, String> {
    let mut n = 0;
    let mut worst: f64 = 0.0;
    for (l1, l2, v) in CASES {
        let el = read(l1, l2);
        for afspc in [false, true] {
            let r = RefSat::new(el, afspc, WGS72);
            for (t, x) in v.iter() {
                let st = r.at(*t).res.map_err(|c| format!("{l1} t={t}: error {c}"))?;
                let dr = dist(&st.r, &[x[0], x[1], x[2]]);
                let dv = dist(&st.v, &[x[3], x[4], x[5]]);
                worst = worst.max(dr);
                // AFSPC mode differs from the published (mixed-mode) runs in the sidereal time
                let tol = if afspc { 5e-3 } else { 2e-8 };
                if !(dr < tol && dv < 2e-9 + tol * 1e-3) {
                    return Err(format!("reference model off at {l1} afspc={afspc} t={t}: dr={dr:e} dv={dv:e}"));
                }
                n += 1;
            }
            r.resonance_selfcheck()?;
        }
    }
    // calendar and sidereal time anchors (Astronomical Almanac / Vallado examples)
    if days_from_1970(2000, 1, 1) != 10957 || jd_midnight(2000, 1, 1) != 2451544.5 || jd_midnight(1957, 10, 4) != 2436115.5 {
        return Err("calendar anchor".into());
    }
    // Vallado example 3-5: 1992-08-20 12:14 UT1 -> 152.578787810 deg
    let g = gmst(jd_midnight(1992, 8, 20) + (12.0 * 60.0 + 14.0) / 1440.0).to_degrees();
    if (g - 152.578787810).abs() > 1e-6 {
        return Err(format!("gmst anchor {g}"));
    }
    if (norm(&[3.0, 4.0, 12.0]) - 13.0).abs() > 1e-15 {
        return Err("norm".into());
    }
    Ok(format!("reference model reproduces {n} published states, worst position difference {worst:.2e} km"))
}
