# P13: product creation and tracking
F = "prodsys/factories/product_factory.py::ProductFactory."
fields("ProductFactory", env="SimEnvironment", process_factory="ProcessFactory", products="list[Product]", finished_products="list[Product]", event_logger="EventLogger?", product_counter="int")
fn(F + "create_product", props=["P13"], nofuzz=True, params={"product_data": "ProductData"}, ret="Product",
   modifies=["self.product_counter", "self.products[]"], may_raise=["ValueError", "KeyError", "IndexError"],
   ensures=[("counter advances", "self.product_counter == old(self.product_counter) + 1"),
            ("tracked as in progress", "self.products == old(self.products) + [result]"), ("a new product", "fresh(result)"),
            ("its identity uses the counter, so no other product has it", "result.product_data.ID == str(product_data.product_type) + '_' + str(old(self.product_counter))")])
fn(F + "create_process_model", props=["P08"], ret="ProcessModel", may_raise=["ValueError", "KeyError", "IndexError"], nofuzz=True,
   bounded="dispatches on a list/dict/edge-list union of a pydantic field; decided by the process-plan driver", ensures=[("a new plan", "fresh(result)")])
fn(F + "get_product", props=["P13", "P14"], raises=[("IndexError", "not any(p.product_data.ID == ID for p in self.products)", None)],
   ensures=[("the product with exactly that identifier", "result in self.products and result.product_data.ID == ID")])
fn(F + "remove_product", props=["P13"], modifies=["self.products"],
   ensures=[("exactly the products with another identifier remain, in order", "self.products == [p for p in old(self.products) if p.product_data.ID != product.product_data.ID]")])
fn(F + "register_finished_product", props=["P13"], requires=[("two collections", "not same(self.products, self.finished_products)")], modifies=["self.products", "self.finished_products[]"],
   ensures=[("finished once", "self.finished_products == old(self.finished_products) + [product]"),
            ("no longer in progress", "not any(p.product_data.ID == product.product_data.ID for p in self.products)"),
            ("nothing else lost", "self.products == [p for p in old(self.products) if p.product_data.ID != product.product_data.ID]")])
fn("prodsys/simulation/sink.py::Sink.register_finished_product", props=["P13"], requires=[("two collections", "not same(self.product_factory.products, self.product_factory.finished_products)")], modifies=["self.product_factory.products", "self.product_factory.finished_products[]"],
   ensures=[("finished once", "self.product_factory.finished_products == old(self.product_factory.finished_products) + [product]"),
            ("no longer in progress", "not any(p.product_data.ID == product.product_data.ID for p in self.product_factory.products)")])
