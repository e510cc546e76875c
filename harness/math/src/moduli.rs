// Moduli under test: generated list of ring configurations.
use sunscreen_math::BarrettConfig;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x2", num_limbs = 1, is_field = true)]
pub struct C0;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3", num_limbs = 1, is_field = true)]
pub struct C1;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4", num_limbs = 1)]
pub struct C2;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x5", num_limbs = 1, is_field = true)]
pub struct C3;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6", num_limbs = 1)]
pub struct C4;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "7", num_limbs = 1, is_field = true)]
pub struct C5;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x8", num_limbs = 1)]
pub struct C6;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9", num_limbs = 1)]
pub struct C7;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "13", num_limbs = 1, is_field = true)]
pub struct C8;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x10", num_limbs = 1)]
pub struct C9;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "17", num_limbs = 1, is_field = true)]
pub struct C10;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9223372036854775808", num_limbs = 1)]
pub struct C11;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7FFFFFFFFFFFFFFF", num_limbs = 1)]
pub struct C12;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "9223372036854775783", num_limbs = 1, is_field = true)]
pub struct C13;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4294967296", num_limbs = 1)]
pub struct C14;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFFFFFFFB", num_limbs = 1, is_field = true)]
pub struct C15;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "2147483647", num_limbs = 1, is_field = true)]
pub struct C16;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3735928559", num_limbs = 1)]
pub struct C17;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x4000000000000001", num_limbs = 1)]
pub struct C18;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "3", num_limbs = 2, is_field = true)]
pub struct C19;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "18446744073709551616", num_limbs = 2)]
pub struct C20;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFFFFFFFFFFFFFFC5", num_limbs = 2, is_field = true)]
pub struct C21;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "18446744073709551629", num_limbs = 2, is_field = true)]
pub struct C22;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "170141183460469231731687303715884105728", num_limbs = 2)]
pub struct C23;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", num_limbs = 2, is_field = true)]
pub struct C24;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "85070591730234615994970860373908914181", num_limbs = 2)]
pub struct C25;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "36893488147419103232", num_limbs = 2)]
pub struct C26;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x800000000000000000000000000000000000000000000000", num_limbs = 3)]
pub struct C27;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1569275433846670190958947355801916604025588861116008628213", num_limbs = 3)]
pub struct C28;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "5", num_limbs = 3, is_field = true)]
pub struct C29;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x3FFFFF59001C92ABC42A839730EC3BF0A9C26B9923CFD7DEFDC4001", num_limbs = 4)]
pub struct C30;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819949", num_limbs = 4, is_field = true)]
pub struct C31;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819968", num_limbs = 4)]
pub struct C32;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x1000000000000000000000000000000000000000000000001", num_limbs = 4)]
pub struct C33;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "1067993517960455041197510853084776057301352261178326384973520803911109862890320275011481043468285", num_limbs = 5)]
pub struct C34;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "19701003098197239606139520050071806902539869635232723333974146702122860885748605305707133127442457820403313995153407", num_limbs = 6)]
pub struct C35;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF7", num_limbs = 7)]
pub struct C36;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503042048", num_limbs = 8)]
pub struct C37;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151", num_limbs = 9, is_field = true)]
pub struct C38;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", num_limbs = 10)]
pub struct C39;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "42081087212386988057927919063041029324402718422585390875986247224549857234376646576909332290220707609815863750849425741704155458001470430905022518165215046799641789369027556785533310063074581738170346013886251003", num_limbs = 11)]
pub struct C40;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "776259046150354467574489744231251277628443008558348305569526019013025476343188443165439204414323238975243865348565536603085790022057407195722143637520590569602227488010424952775132642815799222412631499596858234375446423426908028928", num_limbs = 12)]
pub struct C41;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", num_limbs = 13)]
pub struct C42;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "264147265567832623176169892458258303259423663018060761063980354513336951278362429737208627943828593947337197496628564339441173779751342768625269489231469788454193341999502542084365758838213220526512116454105594202074014146375780869419198449383518238244769290448868999165", num_limbs = 14)]
pub struct C43;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "4872657005699999540176691193937594155438113428797503763433953228606474345383213051232807532941005129612652458115704334091729584932601547023288993648156326709765638849978236514935394827745026824176399796739609189436842798962697437472873181807734482806413869401552138773540914294995957055488", num_limbs = 15)]
pub struct C44;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", num_limbs = 16)]
pub struct C45;
#[derive(BarrettConfig)]
#[barrett_config(modulus = "100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000007", num_limbs = 16)]
pub struct C46;

/// Calls `$m!(index, config, limbs, small?)` for every modulus.
#[macro_export]
macro_rules! each_modulus {
    ($m:ident) => {
        $m!(0, $crate::moduli::C0, 1, field, 2);
        $m!(1, $crate::moduli::C1, 1, field, 3);
        $m!(2, $crate::moduli::C2, 1, ring, 4);
        $m!(3, $crate::moduli::C3, 1, field, 5);
        $m!(4, $crate::moduli::C4, 1, ring, 6);
        $m!(5, $crate::moduli::C5, 1, field, 7);
        $m!(6, $crate::moduli::C6, 1, ring, 8);
        $m!(7, $crate::moduli::C7, 1, ring, 9);
        $m!(8, $crate::moduli::C8, 1, field, 13);
        $m!(9, $crate::moduli::C9, 1, ring, 16);
        $m!(10, $crate::moduli::C10, 1, field, 17);
        $m!(11, $crate::moduli::C11, 1, ring, 0);
        $m!(12, $crate::moduli::C12, 1, ring, 0);
        $m!(13, $crate::moduli::C13, 1, field, 0);
        $m!(14, $crate::moduli::C14, 1, ring, 0);
        $m!(15, $crate::moduli::C15, 1, field, 0);
        $m!(16, $crate::moduli::C16, 1, field, 0);
        $m!(17, $crate::moduli::C17, 1, ring, 0);
        $m!(18, $crate::moduli::C18, 1, ring, 0);
        $m!(19, $crate::moduli::C19, 2, field, 3);
        $m!(20, $crate::moduli::C20, 2, ring, 0);
        $m!(21, $crate::moduli::C21, 2, field, 0);
        $m!(22, $crate::moduli::C22, 2, field, 0);
        $m!(23, $crate::moduli::C23, 2, ring, 0);
        $m!(24, $crate::moduli::C24, 2, field, 0);
        $m!(25, $crate::moduli::C25, 2, ring, 0);
        $m!(26, $crate::moduli::C26, 2, ring, 0);
        $m!(27, $crate::moduli::C27, 3, ring, 0);
        $m!(28, $crate::moduli::C28, 3, ring, 0);
        $m!(29, $crate::moduli::C29, 3, field, 5);
        $m!(30, $crate::moduli::C30, 4, ring, 0);
        $m!(31, $crate::moduli::C31, 4, field, 0);
        $m!(32, $crate::moduli::C32, 4, ring, 0);
        $m!(33, $crate::moduli::C33, 4, ring, 0);
        $m!(34, $crate::moduli::C34, 5, ring, 0);
        $m!(35, $crate::moduli::C35, 6, ring, 0);
        $m!(36, $crate::moduli::C36, 7, ring, 0);
        $m!(37, $crate::moduli::C37, 8, ring, 0);
        $m!(38, $crate::moduli::C38, 9, field, 0);
        $m!(39, $crate::moduli::C39, 10, ring, 0);
        $m!(40, $crate::moduli::C40, 11, ring, 0);
        $m!(41, $crate::moduli::C41, 12, ring, 0);
        $m!(42, $crate::moduli::C42, 13, ring, 0);
        $m!(43, $crate::moduli::C43, 14, ring, 0);
        $m!(44, $crate::moduli::C44, 15, ring, 0);
        $m!(45, $crate::moduli::C45, 16, ring, 0);
        $m!(46, $crate::moduli::C46, 16, ring, 0);
    };
}
