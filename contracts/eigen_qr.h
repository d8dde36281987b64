vc_qr_of<Derived> vc_qr() const { return vc_qr_of<Derived>(derived()); }
