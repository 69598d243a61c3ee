prop='D01'
needs='a change through a view of a view that is lower than its array'
breaks='a view made from a mutable view uses the height of the view as its stride: elements are stored at other positions'
hooks=True
edits=[('src/array2d.rs', '            stride: self.stride(),\n            data: &mut self.data.borrow_mut()[data_offset..],', '            stride: self.y_size,\n            data: &mut self.data.borrow_mut()[data_offset..],')]
demo=r'''use algebraics::verif_hooks::{Grid, GridBound as B, GridEdit};
fn main() {
    let mut g = Grid::from_data(3, 3, vec![0; 9]);
    g.edit(&[(B::Full, B::From(1)), (B::From(1), B::Full)], &[GridEdit::Set((1, 0), 5)]);
    assert_eq!(g.get(2, 1), 5);
}
'''
