#[cfg(feature = "c01")] #[path = "c01_ljpeg.rs"] pub mod c01;
#[cfg(feature = "c03")] #[path = "c03_pumps.rs"] pub mod c03;
#[cfg(feature = "c04")] #[path = "c04_packed.rs"] pub mod c04;
#[cfg(feature = "c05")] #[path = "c05_tiff.rs"] pub mod c05;
#[cfg(feature = "c06")] #[path = "c06_tiffrobust.rs"] pub mod c06;
#[cfg(any(feature = "c07", feature = "c08", feature = "c13"))] #[path = "c07_dngpix.rs"] pub mod c07;
#[cfg(feature = "c08")] #[path = "c08_dngmeta.rs"] pub mod c08;
#[cfg(feature = "c09")] #[path = "c09_layout.rs"] pub mod c09;
#[cfg(feature = "c10")] #[path = "c10_exif.rs"] pub mod c10;
#[cfg(feature = "c11")] #[path = "c11_original.rs"] pub mod c11;
#[cfg(feature = "c12")] #[path = "c12_geometry.rs"] pub mod c12;
#[cfg(feature = "c13")] #[path = "c13_develop.rs"] pub mod c13;
#[cfg(any(feature = "c14", feature = "c15", feature = "c16"))] #[path = "ftp_common.rs"] pub mod ftp_common;
#[cfg(feature = "c14")] #[path = "c14_ftproot.rs"] pub mod c14;
#[cfg(feature = "c15")] #[path = "c15_ftplogin.rs"] pub mod c15;
#[cfg(feature = "c16")] #[path = "c16_ftpproto.rs"] pub mod c16;
