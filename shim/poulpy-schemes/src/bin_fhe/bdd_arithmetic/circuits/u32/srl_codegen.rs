use crate::bin_fhe::bdd_arithmetic::{BitCircuit, BitCircuitFamily, BitCircuitInfo, Circuit, Node};
pub(crate) enum AnyBitCircuit {
    B0(BitCircuit<192>),
    B1(BitCircuit<192>),
    B2(BitCircuit<186>),
    B3(BitCircuit<180>),
    B4(BitCircuit<174>),
    B5(BitCircuit<168>),
    B6(BitCircuit<162>),
    B7(BitCircuit<156>),
    B8(BitCircuit<150>),
    B9(BitCircuit<144>),
    B10(BitCircuit<138>),
    B11(BitCircuit<132>),
    B12(BitCircuit<126>),
    B13(BitCircuit<120>),
    B14(BitCircuit<114>),
    B15(BitCircuit<108>),
    B16(BitCircuit<102>),
    B17(BitCircuit<96>),
    B18(BitCircuit<90>),
    B19(BitCircuit<84>),
    B20(BitCircuit<78>),
    B21(BitCircuit<72>),
    B22(BitCircuit<66>),
    B23(BitCircuit<60>),
    B24(BitCircuit<54>),
    B25(BitCircuit<48>),
    B26(BitCircuit<42>),
    B27(BitCircuit<36>),
    B28(BitCircuit<30>),
    B29(BitCircuit<24>),
    B30(BitCircuit<18>),
    B31(BitCircuit<12>),
}
impl BitCircuitInfo for AnyBitCircuit {
    fn info(&self) -> (&[Node], usize) {
        match self {
            AnyBitCircuit::B0(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B1(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B2(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B3(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B4(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B5(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B6(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B7(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B8(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B9(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B10(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B11(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B12(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B13(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B14(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B15(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B16(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B17(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B18(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B19(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B20(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B21(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B22(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B23(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B24(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B25(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B26(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B27(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B28(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B29(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B30(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
            AnyBitCircuit::B31(bit_circuit) => (bit_circuit.nodes.as_ref(), bit_circuit.max_inter_state),
        }
    }
}

impl BitCircuitFamily for AnyBitCircuit {
    const INPUT_BITS: usize = 37;
    const OUTPUT_BITS: usize = 32;
}

pub(crate) static OUTPUT_CIRCUITS: Circuit<AnyBitCircuit, 32usize> = Circuit([
    AnyBitCircuit::B0(BitCircuit::new(
        [
            Node::Cmux(6, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(4, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(3, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(2, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(1, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(0, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 25, 15),
            Node::Cmux(36, 11, 17),
            Node::Cmux(36, 6, 22),
            Node::Cmux(36, 8, 10),
            Node::Cmux(36, 16, 0),
            Node::Cmux(36, 30, 23),
            Node::None,
            Node::Cmux(36, 19, 24),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 3, 21),
            Node::None,
            Node::None,
            Node::Cmux(36, 27, 18),
            Node::None,
            Node::None,
            Node::Cmux(36, 1, 31),
            Node::Cmux(36, 9, 14),
            Node::Cmux(36, 13, 28),
            Node::None,
            Node::Cmux(36, 20, 4),
            Node::Cmux(36, 2, 29),
            Node::Cmux(36, 5, 7),
            Node::None,
            Node::Cmux(36, 12, 26),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 6, 31),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 24, 8),
            Node::None,
            Node::None,
            Node::Cmux(35, 25, 11),
            Node::None,
            Node::Cmux(35, 28, 7),
            Node::Cmux(35, 23, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 17, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 9, 27),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 29, 5),
            Node::Cmux(34, 24, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 10, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 15),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 5, 31),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 10, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 23, 31),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 26, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        32,
    )),
    AnyBitCircuit::B1(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(15, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(4, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(2, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(3, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(1, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::None,
            Node::Cmux(36, 4, 16),
            Node::None,
            Node::Cmux(36, 31, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 26, 19),
            Node::None,
            Node::None,
            Node::Cmux(36, 23, 8),
            Node::Cmux(36, 21, 12),
            Node::Cmux(36, 7, 27),
            Node::None,
            Node::None,
            Node::Cmux(36, 25, 29),
            Node::Cmux(36, 28, 22),
            Node::None,
            Node::Cmux(36, 14, 20),
            Node::None,
            Node::Cmux(36, 10, 2),
            Node::None,
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 15, 18),
            Node::Cmux(36, 17, 11),
            Node::None,
            Node::None,
            Node::Cmux(36, 13, 1),
            Node::Cmux(36, 5, 30),
            Node::None,
            Node::None,
            Node::Cmux(36, 3, 24),
            Node::None,
            Node::Cmux(35, 22, 3),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 23, 1),
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 18),
            Node::Cmux(35, 20, 11),
            Node::Cmux(35, 27, 31),
            Node::None,
            Node::Cmux(35, 15, 28),
            Node::Cmux(35, 16, 24),
            Node::None,
            Node::None,
            Node::Cmux(35, 7, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 15, 21),
            Node::None,
            Node::Cmux(34, 10, 17),
            Node::None,
            Node::Cmux(34, 14, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 1, 18),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 26, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 0, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 1, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        32,
    )),
    AnyBitCircuit::B2(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(22, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(2, 1, 0),
            Node::Cmux(3, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(4, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(36, 29, 13),
            Node::Cmux(36, 3, 18),
            Node::None,
            Node::Cmux(36, 26, 17),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 19, 4),
            Node::Cmux(36, 8, 23),
            Node::None,
            Node::Cmux(36, 7, 10),
            Node::None,
            Node::Cmux(36, 24, 12),
            Node::Cmux(36, 6, 16),
            Node::None,
            Node::None,
            Node::Cmux(36, 5, 14),
            Node::Cmux(36, 0, 22),
            Node::Cmux(36, 27, 30),
            Node::Cmux(36, 20, 25),
            Node::None,
            Node::Cmux(36, 28, 11),
            Node::Cmux(36, 1, 21),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 2, 9),
            Node::Cmux(36, 0, 15),
            Node::None,
            Node::Cmux(35, 7, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 17, 19),
            Node::Cmux(35, 3, 28),
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 16),
            Node::Cmux(35, 12, 8),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 29, 13),
            Node::Cmux(35, 18, 22),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 1, 21),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 17, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 28, 8),
            Node::Cmux(34, 4, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 18, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 21, 30),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 1, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 14, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        31,
    )),
    AnyBitCircuit::B3(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(21, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(3, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(4, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(36, 23, 16),
            Node::Cmux(36, 9, 17),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 26, 20),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 7, 25),
            Node::Cmux(36, 8, 12),
            Node::Cmux(36, 10, 13),
            Node::None,
            Node::Cmux(36, 18, 22),
            Node::None,
            Node::Cmux(36, 6, 24),
            Node::Cmux(36, 28, 21),
            Node::Cmux(36, 1, 4),
            Node::Cmux(36, 0, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 2, 11),
            Node::Cmux(36, 14, 3),
            Node::Cmux(36, 27, 19),
            Node::None,
            Node::Cmux(36, 0, 29),
            Node::Cmux(35, 27, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 19, 11),
            Node::Cmux(35, 17, 14),
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 0),
            Node::Cmux(35, 29, 6),
            Node::None,
            Node::None,
            Node::Cmux(35, 25, 18),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 26, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 9, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 10, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 5, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 18, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 26, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 4, 24),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 13, 28),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 23, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        30,
    )),
    AnyBitCircuit::B4(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(16, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(4, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::None,
            Node::Cmux(36, 14, 7),
            Node::Cmux(36, 0, 13),
            Node::None,
            Node::Cmux(36, 5, 19),
            Node::Cmux(36, 0, 27),
            Node::Cmux(36, 6, 16),
            Node::Cmux(36, 3, 26),
            Node::Cmux(36, 28, 11),
            Node::Cmux(36, 21, 8),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 22),
            Node::None,
            Node::Cmux(36, 15, 12),
            Node::Cmux(36, 10, 2),
            Node::None,
            Node::None,
            Node::Cmux(36, 4, 23),
            Node::Cmux(36, 25, 9),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 20, 17),
            Node::Cmux(36, 18, 24),
            Node::None,
            Node::Cmux(35, 15, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 27, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 22, 7),
            Node::Cmux(35, 12, 8),
            Node::Cmux(35, 28, 4),
            Node::Cmux(35, 5, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 2, 9),
            Node::None,
            Node::Cmux(35, 6, 18),
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 15),
            Node::Cmux(34, 14, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 13, 1),
            Node::None,
            Node::Cmux(34, 24, 26),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 1, 17),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 19, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 17, 11),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        29,
    )),
    AnyBitCircuit::B5(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(15, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(5, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(36, 0, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 13, 27),
            Node::Cmux(36, 3, 11),
            Node::Cmux(36, 8, 23),
            Node::Cmux(36, 17, 5),
            Node::Cmux(36, 0, 19),
            Node::Cmux(36, 2, 15),
            Node::Cmux(36, 16, 24),
            Node::None,
            Node::None,
            Node::Cmux(36, 7, 14),
            Node::None,
            Node::Cmux(36, 9, 1),
            Node::Cmux(36, 0, 21),
            Node::Cmux(36, 20, 18),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(36, 10, 4),
            Node::None,
            Node::Cmux(36, 26, 22),
            Node::Cmux(36, 0, 25),
            Node::None,
            Node::Cmux(36, 0, 6),
            Node::Cmux(35, 9, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 22, 4),
            Node::None,
            Node::Cmux(35, 15, 10),
            Node::None,
            Node::None,
            Node::Cmux(35, 8, 17),
            Node::None,
            Node::None,
            Node::Cmux(35, 16, 5),
            Node::Cmux(35, 0, 24),
            Node::None,
            Node::Cmux(35, 27, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 25, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 18, 21),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 19, 12),
            Node::None,
            Node::Cmux(34, 15, 0),
            Node::Cmux(34, 26, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 16, 18),
            Node::None,
            Node::Cmux(33, 7, 19),
            Node::None,
            Node::Cmux(32, 26, 24),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        28,
    )),
    AnyBitCircuit::B6(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(19, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(7, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(6, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(36, 3, 9),
            Node::Cmux(36, 10, 12),
            Node::None,
            Node::None,
            Node::Cmux(36, 24, 5),
            Node::None,
            Node::None,
            Node::Cmux(36, 19, 21),
            Node::None,
            Node::Cmux(36, 11, 15),
            Node::Cmux(36, 20, 8),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 16, 13),
            Node::None,
            Node::Cmux(36, 18, 2),
            Node::Cmux(36, 0, 23),
            Node::Cmux(36, 0, 17),
            Node::None,
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 22),
            Node::Cmux(36, 25, 6),
            Node::None,
            Node::None,
            Node::Cmux(36, 14, 4),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 26),
            Node::None,
            Node::Cmux(35, 26, 12),
            Node::Cmux(35, 16, 4),
            Node::Cmux(35, 11, 14),
            Node::Cmux(35, 9, 7),
            Node::None,
            Node::None,
            Node::Cmux(35, 20, 10),
            Node::Cmux(35, 15, 23),
            Node::None,
            Node::None,
            Node::Cmux(35, 18, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 19, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 11, 2),
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 3, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 8, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 2, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 5, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 11, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        27,
    )),
    AnyBitCircuit::B7(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(7, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 4, 20),
            Node::Cmux(36, 2, 18),
            Node::Cmux(36, 3, 25),
            Node::Cmux(36, 0, 17),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 5),
            Node::None,
            Node::Cmux(36, 14, 8),
            Node::None,
            Node::Cmux(36, 24, 21),
            Node::None,
            Node::Cmux(36, 15, 1),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 12),
            Node::None,
            Node::Cmux(36, 0, 22),
            Node::None,
            Node::Cmux(36, 9, 16),
            Node::Cmux(36, 0, 23),
            Node::None,
            Node::None,
            Node::Cmux(36, 6, 10),
            Node::None,
            Node::Cmux(36, 19, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 7, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 14, 19),
            Node::None,
            Node::None,
            Node::Cmux(35, 0, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 4, 25),
            Node::Cmux(35, 15, 3),
            Node::Cmux(35, 17, 11),
            Node::None,
            Node::None,
            Node::Cmux(35, 20, 1),
            Node::Cmux(35, 23, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 18, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 19, 24),
            Node::Cmux(34, 8, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 11, 23),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 20, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 24, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 10, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        26,
    )),
    AnyBitCircuit::B8(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(14, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(8, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(36, 16, 7),
            Node::None,
            Node::Cmux(36, 0, 6),
            Node::None,
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 13, 8),
            Node::None,
            Node::Cmux(36, 18, 23),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 20, 22),
            Node::Cmux(36, 0, 21),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 19, 3),
            Node::None,
            Node::Cmux(36, 0, 2),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 12, 4),
            Node::None,
            Node::Cmux(36, 0, 15),
            Node::None,
            Node::None,
            Node::Cmux(36, 17, 24),
            Node::Cmux(36, 9, 1),
            Node::None,
            Node::None,
            Node::Cmux(35, 8, 12),
            Node::Cmux(35, 17, 23),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 9),
            Node::None,
            Node::Cmux(35, 14, 18),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 4, 5),
            Node::Cmux(35, 20, 0),
            Node::Cmux(35, 11, 24),
            Node::None,
            Node::None,
            Node::Cmux(35, 2, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 14, 7),
            Node::None,
            Node::Cmux(34, 2, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 15),
            Node::Cmux(34, 3, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 20, 21),
            Node::None,
            Node::None,
            Node::Cmux(33, 4, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 7, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        25,
    )),
    AnyBitCircuit::B9(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(23, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(9, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::None,
            Node::Cmux(36, 16, 10),
            Node::Cmux(36, 15, 9),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 4),
            Node::None,
            Node::Cmux(36, 17, 2),
            Node::Cmux(36, 21, 6),
            Node::Cmux(36, 0, 19),
            Node::Cmux(36, 12, 7),
            Node::Cmux(36, 0, 23),
            Node::Cmux(36, 14, 22),
            Node::Cmux(36, 0, 20),
            Node::Cmux(36, 13, 5),
            Node::Cmux(36, 0, 1),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 18),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 12, 9),
            Node::None,
            Node::None,
            Node::Cmux(35, 14, 11),
            Node::None,
            Node::None,
            Node::Cmux(35, 5, 1),
            Node::Cmux(35, 4, 8),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 3, 15),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 2),
            Node::None,
            Node::None,
            Node::Cmux(35, 19, 6),
            Node::None,
            Node::Cmux(35, 16, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 1, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 8),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 21, 12),
            Node::Cmux(34, 19, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 18, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 19, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 17, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        24,
    )),
    AnyBitCircuit::B10(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(17, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(10, 1, 0),
            Node::None,
            Node::Cmux(36, 0, 14),
            Node::None,
            Node::Cmux(36, 4, 10),
            Node::Cmux(36, 0, 7),
            Node::None,
            Node::Cmux(36, 0, 17),
            Node::Cmux(36, 11, 5),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 2),
            Node::None,
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 21, 22),
            Node::Cmux(36, 16, 20),
            Node::None,
            Node::Cmux(36, 18, 15),
            Node::Cmux(36, 3, 9),
            Node::None,
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 19),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 12),
            Node::None,
            Node::Cmux(35, 4, 15),
            Node::None,
            Node::Cmux(35, 20, 8),
            Node::None,
            Node::None,
            Node::Cmux(35, 1, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 18, 11),
            Node::Cmux(35, 21, 3),
            Node::None,
            Node::None,
            Node::Cmux(35, 19, 12),
            Node::Cmux(35, 9, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 6, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 16, 15),
            Node::Cmux(34, 11, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 5, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 2, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 21, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 11, 10),
            Node::Cmux(32, 2, 22),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        23,
    )),
    AnyBitCircuit::B11(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(29, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(11, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(36, 20, 17),
            Node::None,
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 6, 5),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 10),
            Node::None,
            Node::Cmux(36, 1, 11),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 3),
            Node::None,
            Node::Cmux(36, 0, 13),
            Node::None,
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 12),
            Node::None,
            Node::Cmux(36, 14, 21),
            Node::Cmux(36, 15, 8),
            Node::Cmux(36, 0, 18),
            Node::Cmux(36, 0, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 14, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 12, 10),
            Node::None,
            Node::Cmux(35, 3, 8),
            Node::None,
            Node::None,
            Node::Cmux(35, 15, 17),
            Node::Cmux(35, 20, 6),
            Node::None,
            Node::None,
            Node::Cmux(35, 9, 4),
            Node::Cmux(35, 2, 19),
            Node::Cmux(35, 5, 18),
            Node::None,
            Node::None,
            Node::Cmux(34, 20, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 10, 21),
            Node::Cmux(34, 16, 15),
            Node::None,
            Node::Cmux(34, 2, 19),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 11, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 2, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 6, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        22,
    )),
    AnyBitCircuit::B12(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(15, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(12, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(36, 0, 19),
            Node::Cmux(36, 9, 4),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 6),
            Node::None,
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 11, 1),
            Node::Cmux(36, 0, 18),
            Node::Cmux(36, 15, 14),
            Node::Cmux(36, 0, 17),
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 8, 5),
            Node::None,
            Node::Cmux(36, 0, 2),
            Node::None,
            Node::None,
            Node::Cmux(36, 0, 20),
            Node::None,
            Node::Cmux(35, 5, 14),
            Node::None,
            Node::None,
            Node::Cmux(35, 6, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 13, 19),
            Node::Cmux(35, 16, 8),
            Node::None,
            Node::Cmux(35, 11, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 3, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 8, 3),
            Node::None,
            Node::Cmux(34, 19, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 7, 14),
            Node::None,
            Node::Cmux(34, 15, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 18, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 14, 20),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 17, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        21,
    )),
    AnyBitCircuit::B13(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(31, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(13, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 18),
            Node::None,
            Node::Cmux(36, 0, 17),
            Node::None,
            Node::Cmux(36, 11, 5),
            Node::Cmux(36, 0, 13),
            Node::None,
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 1, 9),
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 19, 12),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 4),
            Node::None,
            Node::Cmux(35, 18, 15),
            Node::Cmux(35, 10, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 13, 11),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 17, 1),
            Node::None,
            Node::Cmux(35, 12, 8),
            Node::Cmux(35, 9, 5),
            Node::None,
            Node::Cmux(35, 6, 3),
            Node::Cmux(35, 14, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 13, 14),
            Node::Cmux(34, 16, 5),
            Node::Cmux(34, 1, 11),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 17, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 8, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 9, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 12, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        20,
    )),
    AnyBitCircuit::B14(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(15, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(14, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::None,
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 2, 12),
            Node::Cmux(36, 0, 18),
            Node::Cmux(36, 0, 7),
            Node::None,
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 6, 1),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 14),
            Node::None,
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 17),
            Node::Cmux(35, 7, 2),
            Node::None,
            Node::Cmux(35, 10, 13),
            Node::Cmux(35, 14, 6),
            Node::Cmux(35, 3, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 15, 1),
            Node::None,
            Node::Cmux(35, 18, 9),
            Node::Cmux(35, 17, 8),
            Node::None,
            Node::None,
            Node::Cmux(35, 11, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 4, 15),
            Node::None,
            Node::Cmux(34, 12, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 3, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 11, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 17, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 5, 11),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 14, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        19,
    )),
    AnyBitCircuit::B15(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(20, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(15, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(36, 0, 10),
            Node::None,
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 2),
            Node::None,
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 17, 6),
            Node::Cmux(35, 7, 3),
            Node::Cmux(35, 10, 12),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 4, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 0, 13),
            Node::None,
            Node::None,
            Node::Cmux(35, 9, 11),
            Node::Cmux(35, 2, 14),
            Node::Cmux(35, 16, 15),
            Node::Cmux(35, 8, 17),
            Node::Cmux(34, 0, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 14, 17),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 11, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 15, 16),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 11, 17),
            Node::Cmux(33, 0, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 3, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        18,
    )),
    AnyBitCircuit::B16(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(18, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(16, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 16),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 2),
            Node::None,
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 8),
            Node::None,
            Node::None,
            Node::Cmux(35, 1, 3),
            Node::Cmux(35, 12, 2),
            Node::Cmux(35, 11, 8),
            Node::None,
            Node::Cmux(35, 15, 5),
            Node::None,
            Node::Cmux(35, 7, 4),
            Node::None,
            Node::Cmux(35, 16, 13),
            Node::None,
            Node::Cmux(35, 9, 0),
            Node::Cmux(35, 6, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 13, 8),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 6, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 12, 2),
            Node::Cmux(34, 10, 3),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 10, 0),
            Node::None,
            Node::Cmux(33, 6, 11),
            Node::Cmux(32, 16, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        17,
    )),
    AnyBitCircuit::B17(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(29, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(17, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 15),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 2),
            Node::Cmux(35, 1, 13),
            Node::Cmux(35, 6, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 7, 12),
            Node::Cmux(35, 14, 2),
            Node::Cmux(35, 3, 15),
            Node::Cmux(35, 11, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 10, 9),
            Node::Cmux(35, 0, 8),
            Node::None,
            Node::Cmux(34, 13, 8),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 7, 1),
            Node::Cmux(34, 14, 0),
            Node::None,
            Node::None,
            Node::Cmux(34, 9, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 13, 9),
            Node::None,
            Node::None,
            Node::Cmux(33, 10, 0),
            Node::None,
            Node::Cmux(32, 14, 11),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        16,
    )),
    AnyBitCircuit::B18(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(22, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(18, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 14),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 13),
            Node::None,
            Node::Cmux(35, 10, 11),
            Node::Cmux(35, 7, 14),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 9, 8),
            Node::Cmux(35, 6, 5),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 2, 12),
            Node::None,
            Node::Cmux(35, 0, 1),
            Node::None,
            Node::Cmux(35, 13, 3),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 9, 8),
            Node::Cmux(34, 1, 7),
            Node::Cmux(34, 14, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 12, 2),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 8, 10),
            Node::None,
            Node::Cmux(33, 14, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 3, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        15,
    )),
    AnyBitCircuit::B19(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(31, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(19, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 13),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 2),
            Node::Cmux(35, 4, 9),
            Node::Cmux(35, 1, 3),
            Node::Cmux(35, 0, 12),
            Node::Cmux(35, 0, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(35, 6, 13),
            Node::Cmux(35, 2, 5),
            Node::Cmux(35, 8, 11),
            Node::Cmux(35, 0, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 3, 8),
            Node::None,
            Node::None,
            Node::Cmux(34, 1, 9),
            Node::None,
            Node::None,
            Node::Cmux(34, 10, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 2, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 0, 6),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 10, 3),
            Node::Cmux(32, 6, 13),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        14,
    )),
    AnyBitCircuit::B20(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(29, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(21, 1, 0),
            Node::Cmux(20, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 12),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 1),
            Node::Cmux(35, 9, 4),
            Node::None,
            Node::Cmux(35, 7, 11),
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 10),
            Node::None,
            Node::None,
            Node::Cmux(35, 3, 2),
            Node::Cmux(35, 12, 5),
            Node::None,
            Node::Cmux(35, 0, 8),
            Node::Cmux(35, 0, 6),
            Node::None,
            Node::Cmux(34, 11, 8),
            Node::None,
            Node::None,
            Node::Cmux(34, 3, 2),
            Node::None,
            Node::None,
            Node::Cmux(34, 10, 0),
            Node::None,
            Node::Cmux(34, 4, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 3, 8),
            Node::None,
            Node::Cmux(33, 6, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 2, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        13,
    )),
    AnyBitCircuit::B21(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(21, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(22, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 10),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 11),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 7),
            Node::Cmux(35, 7, 9),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 5),
            Node::Cmux(35, 0, 6),
            Node::None,
            Node::Cmux(35, 0, 11),
            Node::Cmux(35, 8, 3),
            Node::None,
            Node::Cmux(35, 0, 4),
            Node::None,
            Node::Cmux(35, 10, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 5, 0),
            Node::Cmux(34, 2, 1),
            Node::Cmux(34, 8, 6),
            Node::Cmux(34, 3, 10),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 10, 9),
            Node::None,
            Node::None,
            Node::Cmux(33, 8, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 6, 3),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        12,
    )),
    AnyBitCircuit::B22(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(22, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(23, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 10),
            Node::None,
            Node::Cmux(35, 0, 3),
            Node::Cmux(35, 0, 10),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 9),
            Node::Cmux(35, 0, 7),
            Node::None,
            Node::Cmux(35, 4, 5),
            Node::Cmux(35, 8, 6),
            Node::None,
            Node::Cmux(35, 0, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 4, 1),
            Node::Cmux(34, 2, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 3, 10),
            Node::None,
            Node::Cmux(34, 5, 8),
            Node::None,
            Node::Cmux(33, 8, 10),
            Node::None,
            Node::Cmux(33, 3, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 1, 3),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        11,
    )),
    AnyBitCircuit::B23(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(23, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 7),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 9),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 1),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 1),
            Node::None,
            Node::Cmux(35, 0, 7),
            Node::None,
            Node::Cmux(35, 0, 6),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 5),
            Node::Cmux(35, 0, 8),
            Node::Cmux(35, 3, 9),
            Node::None,
            Node::None,
            Node::Cmux(34, 0, 6),
            Node::Cmux(34, 3, 8),
            Node::None,
            Node::Cmux(34, 1, 9),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 7, 5),
            Node::Cmux(33, 9, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 3, 2),
            Node::Cmux(32, 9, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        10,
    )),
    AnyBitCircuit::B24(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(26, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(24, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 8),
            Node::Cmux(36, 0, 7),
            Node::Cmux(35, 0, 7),
            Node::Cmux(35, 0, 8),
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 6),
            Node::Cmux(35, 0, 3),
            Node::None,
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 5),
            Node::Cmux(34, 5, 2),
            Node::Cmux(34, 1, 7),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(34, 8, 4),
            Node::None,
            Node::Cmux(34, 0, 3),
            Node::None,
            Node::None,
            Node::Cmux(33, 5, 1),
            Node::None,
            Node::Cmux(33, 7, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 3, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        9,
    )),
    AnyBitCircuit::B25(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(25, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(26, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 6),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 7),
            Node::Copy,
            Node::Cmux(35, 0, 7),
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 3),
            Node::Cmux(35, 0, 5),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 6),
            Node::Cmux(34, 0, 2),
            Node::None,
            Node::None,
            Node::Cmux(34, 4, 3),
            Node::Cmux(34, 5, 1),
            Node::Cmux(34, 7, 6),
            Node::None,
            Node::None,
            Node::Cmux(33, 5, 3),
            Node::None,
            Node::None,
            Node::Cmux(33, 0, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 3, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        8,
    )),
    AnyBitCircuit::B26(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(26, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 6),
            Node::Copy,
            Node::Cmux(35, 0, 5),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 3),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 6),
            Node::Cmux(35, 0, 1),
            Node::None,
            Node::Cmux(34, 3, 6),
            Node::Cmux(34, 0, 4),
            Node::None,
            Node::Cmux(34, 0, 1),
            Node::Cmux(34, 5, 2),
            Node::None,
            Node::Cmux(33, 4, 5),
            Node::None,
            Node::None,
            Node::Cmux(33, 2, 1),
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(32, 3, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        7,
    )),
    AnyBitCircuit::B27(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(31, 1, 0),
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(27, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 5),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 3),
            Node::Copy,
            Node::Cmux(35, 0, 5),
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 3),
            Node::Cmux(34, 0, 1),
            Node::Cmux(34, 0, 3),
            Node::Cmux(34, 0, 2),
            Node::Cmux(34, 5, 4),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::Cmux(33, 0, 2),
            Node::None,
            Node::Cmux(33, 1, 3),
            Node::Cmux(32, 3, 5),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        6,
    )),
    AnyBitCircuit::B28(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(28, 1, 0),
            Node::Cmux(30, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 3),
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 4),
            Node::Cmux(36, 0, 1),
            Node::Copy,
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 4),
            Node::Cmux(35, 0, 2),
            Node::Cmux(35, 0, 3),
            Node::Cmux(34, 0, 2),
            Node::Cmux(34, 0, 1),
            Node::Cmux(34, 0, 3),
            Node::None,
            Node::Cmux(34, 0, 4),
            Node::Cmux(33, 2, 0),
            Node::None,
            Node::Cmux(33, 4, 1),
            Node::None,
            Node::None,
            Node::Cmux(32, 2, 0),
            Node::None,
            Node::None,
            Node::None,
            Node::None,
        ],
        5,
    )),
    AnyBitCircuit::B29(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(30, 1, 0),
            Node::Cmux(29, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 2),
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 3),
            Node::Copy,
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 3),
            Node::Cmux(35, 0, 2),
            Node::Copy,
            Node::Cmux(34, 0, 3),
            Node::Cmux(34, 0, 2),
            Node::Cmux(34, 0, 1),
            Node::Cmux(33, 2, 3),
            Node::None,
            Node::Cmux(33, 0, 1),
            Node::None,
            Node::Cmux(32, 2, 0),
            Node::None,
            Node::None,
            Node::None,
        ],
        4,
    )),
    AnyBitCircuit::B30(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(30, 1, 0),
            Node::Cmux(31, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 1),
            Node::Cmux(36, 0, 2),
            Node::Copy,
            Node::Cmux(35, 0, 1),
            Node::Cmux(35, 0, 2),
            Node::Copy,
            Node::Cmux(34, 0, 1),
            Node::Cmux(34, 0, 2),
            Node::Cmux(33, 0, 1),
            Node::None,
            Node::Cmux(33, 0, 2),
            Node::Cmux(32, 2, 0),
            Node::None,
            Node::None,
        ],
        3,
    )),
    AnyBitCircuit::B31(BitCircuit::new(
        [
            Node::Copy,
            Node::Cmux(31, 1, 0),
            Node::Copy,
            Node::Cmux(36, 0, 1),
            Node::Copy,
            Node::Cmux(35, 0, 1),
            Node::Copy,
            Node::Cmux(34, 0, 1),
            Node::Copy,
            Node::Cmux(33, 0, 1),
            Node::Cmux(32, 0, 1),
            Node::None,
        ],
        2,
    )),
]);
