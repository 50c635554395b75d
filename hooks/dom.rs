pub use self::html::verif_dom;
