//! CPU kinds under test and the independent copy of their timing tables.
#[cfg(feature = "custom")]
use m68000::{CpuDetails, StackFormat};
// Without user-defined CPUs the two of the library stand in for them.
#[cfg(not(feature = "custom"))]
pub use m68000::cpu_details::{Mc68000 as CustomA, Scc68070 as CustomB, Mc68000 as CustomZ};

const fn fnv(s: &str) -> usize {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < b.len() {
        h ^= b[i] as u64;
        h = h.wrapping_mul(0x100000001b3);
        i += 1;
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^= h >> 32;
    // 20-bit value, never 0: distinct sums for distinct table entries with high probability.
    ((h & 0xF_FFFF) + 1) as usize
}

macro_rules! timing_table {
    ($($n:ident $a:literal $b:literal,)*) => {
        #[allow(non_snake_case, dead_code)]
        #[derive(Clone, Copy, Debug)]
        pub struct Tim { $(pub $n: usize,)* pub scc_frames: bool, pub kind: u8 }
        pub const T_MC: Tim = Tim { $($n: $a,)* scc_frames: false, kind: 0 };
        pub const T_SCC: Tim = Tim { $($n: $b,)* scc_frames: true, kind: 1 };
        pub const T_CA: Tim = Tim { $($n: fnv(stringify!($n)),)* scc_frames: false, kind: 2 };
        pub const T_CB: Tim = Tim { $($n: fnv(stringify!($n)) * 3 + 7,)* scc_frames: true, kind: 3 };
        /// User-defined CPU with MC68000 stack frames and a distinctive value for each constant.
        #[derive(Clone, Copy, Debug, Default)]
        #[cfg(feature = "custom")]
        pub struct CustomA;
        #[cfg(feature = "custom")]
        impl CpuDetails for CustomA {
            const STACK_FORMAT: StackFormat = StackFormat::MC68000;
            fn vector_execution_time(v: u8) -> usize { custom_vec(2, v) }
            $(const $n: usize = fnv(stringify!($n));)*
        }
        /// User-defined CPU with SCC68070 stack frames.
        #[derive(Clone, Copy, Debug, Default)]
        #[cfg(feature = "custom")]
        pub struct CustomB;
        #[cfg(feature = "custom")]
        impl CpuDetails for CustomB {
            const STACK_FORMAT: StackFormat = StackFormat::SCC68070;
            fn vector_execution_time(v: u8) -> usize { custom_vec(3, v) }
            $(const $n: usize = fnv(stringify!($n)) * 3 + 7;)*
        }
        /// User-defined CPU whose instructions take no time.
        #[derive(Clone, Copy, Debug, Default)]
        #[cfg(feature = "custom")]
        pub struct CustomZ;
        #[cfg(feature = "custom")]
        impl CpuDetails for CustomZ {
            const STACK_FORMAT: StackFormat = StackFormat::MC68000;
            fn vector_execution_time(_: u8) -> usize { 0 }
            $(const $n: usize = 0;)*
        }
    };
}

fn custom_vec(kind: u8, v: u8) -> usize {
    (v as usize + 1) * 1_000_003 + kind as usize
}

include!("tables.rs");

#[cfg(feature = "custom")]
pub const TIMS: [&Tim; 4] = [&T_MC, &T_SCC, &T_CA, &T_CB];
#[cfg(not(feature = "custom"))]
pub const TIMS: [&Tim; 4] = [&T_MC, &T_SCC, &T_MC, &T_SCC];

impl Tim {
    /// Exception processing time; `None` where the tables do not say.
    pub fn vec_time(&self, v: u8) -> Option<usize> {
        match self.kind {
            0 => Some(match v { 2 | 3 => 50, 5 => 38, 6 => 40, 24..=31 => 44, 4 | 7 | 8 | 9 | 32..=47 => 34, _ => return None }),
            1 => Some(match v { 2 | 3 => 158, 5 | 6 => 64, 24..=31 => 65, 4 | 7 | 8 | 9 => 55, 32..=47 => 52, _ => return None }),
            k => Some(custom_vec(k, v)),
        }
    }
}

/// `with_cpu`, and the CPU that takes no time for kind 4.
#[macro_export]
macro_rules! with_any_cpu {
    ($k:expr, $c:ident => $e:expr) => {
        if $k == 4 && cfg!(feature = "custom") { type $c = $crate::cpu::CustomZ; $e } else { $crate::with_cpu!($k, $c => $e) }
    };
}

/// Dispatches a generic expression on the CPU kind.
#[macro_export]
macro_rules! with_cpu {
    ($k:expr, $c:ident => $e:expr) => {
        match $k & 3 {
            0 => { type $c = m68000::cpu_details::Mc68000; $e }
            1 => { type $c = m68000::cpu_details::Scc68070; $e }
            2 => { type $c = $crate::cpu::CustomA; $e }
            _ => { type $c = $crate::cpu::CustomB; $e }
        }
    };
}
